------------------------------ MODULE MC_Scale ------------------------------
(* Homogeneity: for every operation of CmlScale, doubling the scaled        *)
(* operands multiplies each output of the specification by the power of two *)
(* that DegAll gives it.  One state is one call.                            *)
EXTENDS CmlCalls, TLC, FiniteSets
V(n, m) == [1..n -> (-m)..m]
D == [den |-> 1, wide |-> 0]
Q == {<<1, 2, -1, 0>>, <<0, -2, 1, 1>>, <<1, 1, 1, 1>>, <<-2, 0, 0, 0>>, <<0, 1, 2, 2>>}
M4 == {[k \in 1..16 |-> ((k * 7) % 11) - 5], [k \in 1..16 |-> IF k % 5 = 1 THEN 2 ELSE k - 8], [k \in 1..16 |-> IF k = 16 THEN 3 ELSE IF k > 12 THEN 0 ELSE 9 - k]}
C1(F, s) == {[c |-> x, F |-> F, k |-> 1] : x \in s}
Angles == {<<3, 4, 5>>, <<-4, 3, 5>>, <<0, -1, 1>>, <<-1, 0, 1>>}
PV == {[l |-> b[1], r |-> b[2], b |-> b[3], t |-> b[4], n |-> 12, f |-> z, hand |-> h, zc |-> y, den |-> 2] :
         b \in {<<-5, 9, -16, 35>>, <<5, 16, -9, 9>>}, z \in {13, 60}, h \in {0, 1}, y \in {0, 1}}
PVQ == {p @@ [op |-> o, persp |-> g, q |-> q, dq |-> 2, v |-> v] : p \in PV, o \in {"planes", "planesraw", "nearp"}, g \in {0, 1}, q \in {<<1, 1, 1, 1>>, <<1, -1, 1, 1>>}, v \in {<<0, 0, 0>>, <<3, -1, 4>>}}
All == C1({"a", "b"}, {[op |-> o, a |-> x, b |-> y] @@ D : o \in {"manhattan"}, x \in V(2, 2), y \in V(2, 2)})
  \cup UNION {C1(F, {[op |-> o, a |-> x, b |-> y] @@ D : o \in {"dot", "perp_dot"}, x \in V(2, 2), y \in V(2, 2)}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup UNION {C1(F, {[op |-> o, a |-> x, b |-> y] @@ D : o \in {"cross", "outer", "projv"}, x \in V(3, 1), y \in {z \in V(3, 1) : z # <<0, 0, 0>>}}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup UNION {C1(F, {[op |-> "triple", a |-> x, b |-> y, c |-> z] @@ D : x \in V(3, 1), y \in {<<1, -1, 1>>, <<0, 1, 1>>}, z \in {<<1, 0, 1>>, <<-1, -1, 1>>}}) : F \in {{"a"}, {"b"}, {"c"}, {"a", "b", "c"}}}
  \cup C1({"a"}, {[op |-> o, a |-> x] @@ D : o \in {"lensq", "perp"}, x \in V(2, 2)})
  \cup C1({"a"}, {[op |-> o, a |-> x] @@ D : o \in {"length", "normalize"}, x \in {z \in V(2, 4) : z # <<0, 0>> /\ IsSquare(LenSq(z))}})
  \cup UNION {C1(F, {[op |-> "mm", r |-> 2, k |-> 2, c |-> 2, a |-> x, b |-> y] @@ D : x \in V(4, 1), y \in {<<1, 2, 3, 4>>, <<-1, 1, 0, 2>>}}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup UNION {C1(F, {[op |-> o, neg |-> n, a |-> x, b |-> y] @@ D : o \in {"qmul", "qdot"}, n \in {0, 1}, x \in Q, y \in Q}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup UNION {C1(F, {[op |-> "qmul3", neg |-> n, a |-> x, b |-> y, c |-> z] @@ D : n \in {0, 1}, x \in Q, y \in Q, z \in Q}) : F \in {{"a"}, {"c"}, {"a", "b", "c"}}}
  \cup C1({"a", "b"}, {[op |-> o, a |-> x, b |-> y] @@ D : o \in {"qadd", "qsub"}, x \in Q, y \in Q})
  \cup C1({"a"}, {[op |-> o, a |-> x] @@ D : o \in {"qneg", "qconj", "qnorm", "qparts", "qbuild", "qinv"}, x \in Q})
  \cup C1({"a"}, {[op |-> o, a |-> x] @@ D : o \in {"qlen", "qnormalize"}, x \in {z \in Q : IsSquare(QNorm(z))}})
  \cup UNION {C1(F, {[op |-> "qscale", which |-> w, a |-> x, s |-> s] @@ D : w \in {0, 1}, x \in Q, s \in {-3, 1, 4}}) : F \in {{"a"}, {"s"}, {"a", "s"}}}
  \cup UNION {C1(F, {[op |-> o, a |-> m, b |-> IF o = "tvec" THEN SubSeq(q, 1, 3) ELSE q, dim |-> 3, den |-> 1] : o \in {"tvec", "tvec4"}, m \in M4, q \in Q}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup C1({"a"}, {z \in {[op |-> "tpt4", a |-> m, b |-> SubSeq(q, 2, 4), den |-> 1] : m \in M4, q \in Q} : HomW(z)[1] # 0})
  \cup C1({"a"}, {[op |-> "tget", a |-> m, dim |-> d] : m \in M4, d \in {2, 3}})
  \cup UNION {C1(F, {[op |-> "concat", n |-> 4, a |-> m, b |-> k, den |-> 1] : m \in M4, k \in M4}) : F \in {{"a"}, {"b"}, {"a", "b"}}}
  \cup C1({"n"}, {p @@ [op |-> o] : p \in PV, o \in {"ortho", "persp"}})
  \cup C1({"n", "v"}, PVQ)
  \cup C1({"p"}, {[op |-> "polar", p |-> p, den |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : p \in {-2, 0, 3}, t \in Angles})
  \cup C1({"p", "h"}, {[op |-> "cyl", axis |-> x, p |-> p, h |-> h, den |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : x \in 0..2, p \in {-2, 3}, h \in {-1, 2}, t \in Angles})
  \cup C1({"p"}, {[op |-> "sph", axis |-> x, lat |-> l, p |-> p, den |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], pc |-> u[1], ps |-> u[2], pd |-> u[3], k |-> 0] :
                   x \in 0..2, l \in {0, 1}, p \in {-2, 3}, t \in Angles, u \in Angles})
  \cup C1({"b"}, {[op |-> "rotv", b |-> q, den |-> 1, u |-> <<2, -1, 2>>, du |-> 3, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : q \in V(3, 1), t \in Angles})
  \cup C1({"a"}, {[op |-> o, a |-> <<x[1], Min2(x[2], x[3]), Max2(x[2], x[3])>>, den |-> 1] : o \in {"sclamp", "sinrange", "swrap"}, x \in {z \in V(3, 2) : z[2] # z[3]}})
  \cup C1({"a"}, {[op |-> "smap", a |-> <<x[1], x[2], x[3], t, 3>>, den |-> 1] : t \in {-2, 0}, x \in {z \in V(3, 2) : z[2] # z[3]}})
  \cup C1({"a"}, {[op |-> o, a |-> <<x>>, den |-> d] : o \in {"ssign", "spow"}, x \in -3..3, d \in {1, 2}})
  \cup {[c |-> [op |-> "ssqrt", a |-> <<x>>, den |-> d], F |-> {"a"}, k |-> 2] : x \in {1, 4, 9}, d \in {1, 4}}
VARIABLES e
Init == e \in All
Next == UNCHANGED e
Group(F) == IF "n" \in F THEN (F \cup {"l", "r", "b", "t", "f"}) ELSE F
Twice(c, F, k) == [f \in DOMAIN c |-> IF f \in Group(F) THEN (IF f \in {"s", "p", "h", "l", "r", "t", "n", "f"} \/ (f = "b" /\ "n" \in F) THEN 2^k * c[f] ELSE [j \in DOMAIN c[f] |-> 2^k * c[f][j]]) ELSE c[f]]
WithSc(c, F, k) == c @@ [f \in {ScName[g] : g \in F} |-> k]
What(c) == CASE c.op \in TransOps -> TransExpect(c) [] c.op \in ProjOps -> ProjExpect(c) [] c.op \in CoordOps -> CoordExpect(c)
             [] c.op \in ScalarOps /\ c.op # "swrap" -> ScalarExpect(c)
             [] c.op = "swrap" -> <<Rat(c.a[2] + Mod(c.a[1] - c.a[2], c.a[3] - c.a[2]), c.den)>>
             [] OTHER -> Expect(c, "d")
P2(n) == IF n >= 0 THEN <<2^n, 1>> ELSE <<1, 2^(-n)>>
Homogeneous == LET c == e.c  s == WithSc(c, e.F, e.k)  d == DegAll(s)  x == What(c)  y == What(Twice(c, e.F, e.k))
               IN /\ Pre(c) /\ Pre(Twice(c, e.F, e.k)) /\ Free(s)
                  /\ Len(x) = Len(y) /\ Len(d) \in {1, Len(x)}
                  /\ \A j \in 1..Len(x) : REq(y[j], RMul(P2(d[IF Len(d) = 1 THEN 1 ELSE j]), x[j]))
=============================================================================
