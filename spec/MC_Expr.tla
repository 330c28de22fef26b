------------------------------ MODULE MC_Expr ------------------------------
(* Expression trees.  All trees of one operation over every way of passing  *)
(* an operand (a share of the binary ones in the quick tier), and random    *)
(* deep trees grown by a stack machine which also evaluates every operation *)
(* into its own object in order: the invariants say that the meaning of a   *)
(* tree is that step-by-step value.                                         *)
EXTENDS CmlExpr, Json, IOUtils, TLC, Randomization, SequencesExt

CONSTANT Depth
VARIABLES st, env, ops, ids, cfg, fin
vars == <<st, env, ops, ids, cfg, fin>>

Tier == IF IOEnv.TIER = "thorough" THEN 1 ELSE 0
Node(o, k, r, c, i, s, g, z, kids) == [o |-> o, k |-> k, r |-> r, c |-> c, i |-> i, s |-> s, g |-> g, z |-> z, kids |-> kids]
Leaf(k, r, c, i, s) == Node("x", k, r, c, i, s, 0, IF k = "q" THEN 0 ELSE i % 2, << >>)
Cats(k, i) == IF k = "q" \/ i < 2 THEN {0, 1, 2, 3, 4, 5, 7} ELSE {0, 1, 6}
Stores(k) == IF k = "q" THEN 0..2 ELSE 0..3
Leaves(k, r, c) == {Leaf(k, r, c, i, s) : i \in Stores(k), s \in 0..7} 
LeafOK(l) == l.s \in Cats(l.k, l.i)
LeafSet(k, r, c) == {l \in Leaves(k, r, c) : LeafOK(l)}
RECURSIVE StoreKinds(_)
StoreKinds(t) == IF t.o = "x" THEN (IF t.k = "q" THEN {0} ELSE {t.i % 2}) ELSE UNION {StoreKinds(t.kids[k]) : k \in 1..Len(t.kids)}
RECURSIVE NoCopy(_)        \* holds a temporary view of a matrix, which cannot be copied
NoCopy(t) == (t.o = "x" /\ t.k = "m" /\ t.s = 6) \/ (~Eager(t.o) /\ \E k \in 1..Len(t.kids) : NoCopy(t.kids[k]))

(* The operations applicable to operands, as sets of nodes.                 *)
U(o, k, r, c, i, g, z, t) == Node(o, k, r, c, i, 0, g, z, <<t>>)
Unary(t) ==
  {U("neg", t.k, t.r, t.c, 0, t.g, t.z, t), U("pos", t.k, t.r, t.c, 0, t.g, t.z, t), U("mul", t.k, t.r, t.c, 3, t.g, t.z, t),
   U("lmul", t.k, t.r, t.c, 2, t.g, t.z, t), U("div", t.k, t.r, t.c, 2, t.g, t.z, t)}
  \cup (IF t.k = "v" /\ t.r = 3 THEN {U("sub", "v", 2, 1, i, 0, t.z, t) : i \in 0..2} \cup {U("mkq", "q", 4, 1, 3, 0, 0, t)} ELSE {})
  \cup (IF t.k = "m" THEN {U("row", "v", t.c, 1, i, 0, t.z, t) : i \in 0..(t.r - 1)} \cup {U("col", "v", t.r, 1, i, 0, t.z, t) : i \in 0..(t.c - 1)}
                          \cup {U("trans", "m", t.c, t.r, 0, t.g, t.z, t)} ELSE {})
  \cup (IF t.k = "m" /\ t.g = 0 THEN {U("basis", "v", IF cfg % 2 = 1 THEN t.c ELSE t.r, 1, i, 0, t.z, t) : i \in 0..((IF cfg % 2 = 1 THEN t.r ELSE t.c) - 1)} ELSE {})
  \cup (IF t.k = "q" THEN {U("conj", "q", 4, 1, 0, 0, 0, t), U("imag", "v", 3, 1, 0, 0, 0, t), U("inv", "q", 4, 1, 0, 0, 0, t)} ELSE {})
  \* (normalize on a named object or a view of one works in place)
  \cup (IF t.k # "m" /\ ~Has(t, "mvl") /\ ~(t.o = "x" /\ t.s \in {0, 6}) THEN {U("nrm", t.k, t.r, t.c, 0, t.g, t.z, t)} ELSE {})
Wrap(t) == (IF t.o # "x" THEN {U("ret", t.k, t.r, t.c, 0, t.g, t.z, t)} ELSE {}) \cup (IF t.g = 0 THEN {U("tmp", t.k, t.r, t.c, 0, 0, t.z, t)} ELSE {})
B(o, k, r, c, g, z, t, u) == Node(o, k, r, c, 0, 0, g, z, <<t, u>>)
Same(t, u) == t.k = u.k /\ t.r = u.r /\ t.c = u.c
Binary(t, u) ==
  LET z == Min2(t.z, u.z)  g == Min2(t.g, u.g) IN
  (IF Same(t, u) THEN {B("add", t.k, t.r, t.c, g, z, t, u), B("minus", t.k, t.r, t.c, g, z, t, u)} ELSE {})
  \cup (IF Same(t, u) /\ t.k # "q" THEN {B("had", t.k, t.r, t.c, g, z, t, u)} ELSE {})
  \cup (IF Same(t, u) /\ t.k = "q" THEN {B("qq", "q", 4, 1, 0, 0, t, u)} ELSE {})
  \cup (IF t.k = "v" /\ u.k = "v" /\ t.r = 3 /\ u.r = 3 THEN {B("cross", "v", 3, 1, 0, z, t, u)} ELSE {})
  \cup (IF t.k = "v" /\ u.k = "v" /\ Cardinality(StoreKinds(t) \cup StoreKinds(u)) = 1 THEN {B("outer", "m", t.r, u.r, 1, z, t, u)} ELSE {})
  \cup (IF t.k = "m" /\ u.k = "m" /\ t.c = u.r /\ t.g = 0 /\ u.g = 0 THEN {B("mm", "m", t.r, u.c, 0, Max2(t.z, u.z), t, u)} ELSE {})
  \cup (IF t.k = "m" /\ u.k = "v" /\ t.c = u.r /\ t.g = 0 THEN {B("mulv", "v", t.r, 1, 0, Max2(t.z, u.z), t, u)} ELSE {})
  \cup (IF t.k = "v" /\ u.k = "m" /\ t.r = u.r /\ u.g = 0 THEN {B("vmul", "v", u.c, 1, 0, Max2(t.z, u.z), t, u)} ELSE {})
Ternary(t, u, w) == IF u.k = "v" /\ Same(u, w) /\ t.k = "v" THEN {Node("sdot", t.k, t.r, t.c, 0, 0, t.g, t.z, <<t, u, w>>)} ELSE {}

Mode == [rb |-> (cfg % 2) = 1, neg |-> cfg >= 4]
\* values of the named objects; no quaternion object is zero
ObjVal(s, k) == ((k * 7 + (k \div 5) * 3 + s * 13 + ((s * k) % 11)) % 7) - 3
EnvOf(s) == [k \in 1..EnvLen |-> IF k > 120 /\ k % 4 = 1 /\ ObjVal(s, k) = 0 THEN 2 ELSE ObjVal(s, k)]

(* --- stack machine ------------------------------------------------------ *)
Shapes == {<<"v", 2, 1>>, <<"v", 3, 1>>, <<"m", 2, 2>>, <<"m", 2, 3>>, <<"m", 3, 2>>, <<"m", 3, 3>>, <<"q", 4, 1>>}
Seed == atoi(IOEnv.SEED)
Init == /\ \E s \in {RandomElement(Shapes)} : \E l \in {RandomElement(LeafSet(s[1], s[2], s[3]))} :
             st = <<[t |-> l, v |-> Ev(l, [rb |-> FALSE, neg |-> FALSE], EnvOf(0), EnvOf(0))]>>
        /\ env = <<EnvOf(0), EnvOf(1)>>
        /\ cfg \in 0..7 /\ ops = 0 /\ ids = 0 /\ fin = FALSE
Top == st[Len(st)]
StepVal(t, vs) == EvOp(t, vs[1], IF t.o = "inv" THEN vs[1] ELSE IF Len(vs) > 1 THEN vs[2] ELSE vs[1], IF Len(vs) > 2 THEN vs[3] ELSE vs[1], Mode)
Fits(t) == Modest(t) /\ (t.o \notin {"inv", "nrm"} \/ Defined(t, Mode, env[1]))
Push(t, v, n) == st' = Append(SubSeq(st, 1, Len(st) - n), [t |-> t, v |-> v])
LeafVal(l) == Ev(l, Mode, env[1], env[1])
Apply1 == \E t \in {RandomElement(Unary(Top.t))} : Fits(t) /\ Push(t, StepVal(t, <<Top.v>>), 1) /\ ops' = ops + 1 /\ UNCHANGED ids
Wrap1 == Wrap(Top.t) # {} /\ \E t \in {RandomElement(Wrap(Top.t))} : Fits(t) /\ Push(t, Top.v, 1) /\ UNCHANGED <<ops, ids>>
\* a named expression, used once by moving it, or one or two times by name
Name1 == /\ Top.t.o # "x" /\ ~NoCopy(Top.t) /\ ids < 3
         /\ ids' = ids + 1 /\ UNCHANGED ops
         /\ \/ Push(U("mvl", Top.t.k, Top.t.r, Top.t.c, ids, Top.t.g, Top.t.z, Top.t), Top.v, 1)
            \/ LET l == U("let", Top.t.k, Top.t.r, Top.t.c, ids, Top.t.g, Top.t.z, Top.t)
               IN Push(l, Top.v, 1) \/ (Len(st) < 3 /\ st' = SubSeq(st, 1, Len(st) - 1) \o <<[t |-> l, v |-> Top.v], [t |-> l, v |-> Top.v]>>)
WithLeaf == \E s \in {RandomElement(Shapes)} : \E l \in {RandomElement(LeafSet(s[1], s[2], s[3]))} :
              LET b == Binary(Top.t, l)  c == Binary(l, Top.t) IN
              /\ b \cup c # {}
              /\ \E t \in {RandomElement(b \cup c)} : Fits(t) /\ Push(t, IF t \in b THEN StepVal(t, <<Top.v, LeafVal(l)>>) ELSE StepVal(t, <<LeafVal(l), Top.v>>), 1)
              /\ ops' = ops + 1 /\ UNCHANGED ids
NewLeaf == /\ Len(st) < 3
           /\ \E l \in {RandomElement(LeafSet(Top.t.k, Top.t.r, Top.t.c))} : Push(l, LeafVal(l), 0) /\ UNCHANGED <<ops, ids>>
Combine == /\ Len(st) >= 2
           /\ LET u == Top  t == st[Len(st) - 1]  b == Binary(t.t, u.t) IN
              /\ b # {}
              /\ \E x \in {RandomElement(b)} : Fits(x) /\ Push(x, StepVal(x, <<t.v, u.v>>), 2)
           /\ ops' = ops + 1 /\ UNCHANGED ids
Combine3 == /\ Len(st) >= 3
            /\ LET w == Top  u == st[Len(st) - 1]  t == st[Len(st) - 2]  b == Ternary(t.t, u.t, w.t) IN
               \E x \in b : Fits(x) /\ Push(x, StepVal(x, <<t.v, u.v, w.v>>), 3)
            /\ ops' = ops + 1 /\ UNCHANGED ids
Discard == Len(st) >= 2 /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<ops, ids>>
Start == ops = 0 /\ ids = 0 /\ Len(st) = 1 /\ env[1] = EnvOf(0)
Next == \/ /\ Start        \* draw the values of the objects
           /\ \E s \in {RandomElement(1..500)} : env' = <<EnvOf(s), EnvOf(s + 3)>> /\ st' = <<[st[1] EXCEPT !.v = Ev(st[1].t, Mode, EnvOf(s), EnvOf(s))]>>
           /\ UNCHANGED <<ops, ids, cfg, fin>>
        \/ /\ ~fin /\ ~Start /\ ops < Depth
           /\ (\/ Apply1 \/ WithLeaf \/ NewLeaf \/ Combine \/ Combine3 \/ (ops > 0 /\ (Wrap1 \/ Name1)))
           /\ UNCHANGED <<env, cfg, fin>>
        \/ /\ ~fin /\ ops >= Depth /\ Len(st) > 1 /\ (Combine \/ Combine3 \/ Discard) /\ UNCHANGED <<env, cfg, fin>>
        \/ /\ ~fin /\ ops >= Depth /\ Len(st) = 1 /\ fin' = TRUE /\ UNCHANGED <<st, env, ops, ids, cfg>>
InOrder == \A k \in 1..Len(st) : LET x == Ev(st[k].t, Mode, env[1], env[1]) IN
             Len(x) = Len(st[k].v) /\ \A j \in 1..Len(x) : REq(x[j], st[k].v[j])
RECURSIVE AllTemp(_), AllNamed(_)
AllTemp(t) == (t.o = "x" => ~Reads(t.s)) /\ \A k \in 1..Len(t.kids) : AllTemp(t.kids[k])
AllNamed(t) == (t.o = "x" => Reads(t.s)) /\ ~Eager(t.o) /\ t.o \notin {"inv", "sdot"} /\ \A k \in 1..Len(t.kids) : AllNamed(t.kids[k])
Capture == \A k \in 1..Len(st) : LET t == st[k].t IN
             /\ AllTemp(t) => Ev(t, Mode, env[1], env[2]) = Ev(t, Mode, env[1], env[1])
             /\ AllNamed(t) => Ev(t, Mode, env[1], env[2]) = Ev(t, Mode, env[2], env[2])

(* --- export ------------------------------------------------------------- *)
RECURSIVE Hash(_)
Hash(t) == (t.i * 5 + t.s * 11 + t.r * 3 + t.c * 7 + t.z * 13 + Len(t.kids) * 17
            + SumSeq([k \in 1..Len(t.kids) |-> k * Hash(t.kids[k])])) % 1009
RECURSIVE Names(_)     \* offsets of the objects read by the tree which may be assigned to
Names(t) == IF t.o = "x" THEN (IF t.s = 0 THEN {<<VarAt(t.k, t.r, t.c, t.i), t.k, t.r, t.c>>} ELSE {}) ELSE UNION {Names(t.kids[k]) : k \in 1..Len(t.kids)}
Alias(t) == LET a == {x \in Names(t) : x[2] = t.k /\ x[3] = t.r /\ x[4] = t.c} IN
            IF ~ElementWise(t) \/ a = {} THEN -1 ELSE (CHOOSE x \in a : TRUE)[1]
Program(t, e, c, f) == [op |-> "expr", cfg |-> c, f |-> f, al |-> Alias(t), nc |-> IF NoCopy(t) THEN 1 ELSE 0, a |-> e[1], b |-> e[2], t |-> t]
Export == fin => (Top.t.o # "x" =>
            Serialize(ToJson(Program(Top.t, env, cfg, ops % 3)) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0)

(* --- every way of passing operands to one operation ---------------------- *)
ShapeOf(k, h) == CASE k = "v" -> <<"v", 2 + (h % 2), 1>> [] k = "m" -> <<"m", 2 + (h % 2), 2 + ((h \div 2) % 2)>> [] k = "q" -> <<"q", 4, 1>>
AllLeaves == UNION {LeafSet(s[1], s[2], s[3]) : s \in Shapes}
One == UNION {UNION {Unary(l), Wrap(l)} : l \in AllLeaves}
Two == UNION {UNION {Binary(l, u) : u \in {x \in AllLeaves : (Hash(x) * 3 + Hash(l)) % (IF Tier = 1 THEN 7 ELSE 23) = Seed % 3}} : l \in AllLeaves}
=============================================================================
