------------------------------ MODULE CmlExpr ------------------------------
(* Lazy expressions.  The state of a program is a set of named objects (an  *)
(* environment: a sequence of numbers, each object a slice of it) and an    *)
(* expression tree.  An expression is built while the environment is env0   *)
(* and may be read later, when the named objects have changed: Ev(t, m, a,  *)
(* b) is its value when it was built in environment a and is read in b.     *)
(* Named operands are read at the time of reading, temporaries were         *)
(* captured when the expression was built, operations which are eager       *)
(* (products, scalars) were carried out when it was built.                  *)
(* A node is [o, k, r, c, i, s, g, z, kids]: operation, kind ("v", "m",     *)
(* "q"), rows, columns, parameter, category or storage of a leaf.           *)
EXTENDS CmlSizes

EnvLen == 132
\* offset of the object (kind, rows, cols, storage or number)
VarAt(k, r, c, s) == CASE k = "v" -> (IF r = 2 THEN s * 2 ELSE 8 + s * 3)
                       [] k = "m" -> (IF r = 2 THEN (IF c = 2 THEN 20 + s * 4 ELSE 36 + s * 6)
                                      ELSE (IF c = 2 THEN 60 + s * 6 ELSE 84 + s * 9))
                       [] k = "q" -> 120 + s * 4
NSize(t) == IF t.k = "q" THEN 4 ELSE t.r * t.c
\* categories of a leaf: 0 named, 1 named and const, 2 copy made in place,
\* 3 moved from, 4 result of a function, 5 const result, 6 temporary view,
\* 7 moved from a const object (a copy)
Reads(s) == s \in {0, 1, 6}
RZ == <<0, 1>>
RSum(n, f(_)) == LET RECURSIVE S(_)
                     S(k) == IF k = 0 THEN RZ ELSE RAdd(S(k - 1), f(k))
                 IN S(n)
XQMul(a, b, neg) ==    \* (w, x, y, z) elements; neg: the opposite handedness
  LET m(i, j) == RMul(a[i], b[j])
      q(w1, w2, w3, w4) == RAdd(RAdd(w1, w2), RAdd(w3, w4))
      x(p, r) == IF neg THEN RSub(r, p) ELSE RSub(p, r)
  IN <<q(m(1, 1), RNeg(m(2, 2)), RNeg(m(3, 3)), RNeg(m(4, 4))),
       q(m(1, 2), m(2, 1), x(m(3, 4), m(4, 3)), RZ),
       q(m(1, 3), m(3, 1), x(m(4, 2), m(2, 4)), RZ),
       q(m(1, 4), m(4, 1), x(m(2, 3), m(3, 2)), RZ)>>

(* One operation on values x, y (sequences of rationals), given the node    *)
(* and the shapes of its operands.  rb: matrices are row-basis; neg: the    *)
(* quaternions multiply with the negative cross product.                    *)
EvOp(t, x, y, z, m) ==
  LET n == NSize(t)  a == IF Len(t.kids) > 0 THEN t.kids[1] ELSE t
      b == IF Len(t.kids) > 1 THEN t.kids[2] ELSE t
      XAt(p, w, i, j) == p[i * w + j + 1]      \* element (i, j) of a matrix with w columns
      XMat(f(_, _)) == [k \in 1..n |-> f((k - 1) \div t.c, (k - 1) % t.c)]
      XVec(f(_)) == [k \in 1..n |-> f(k - 1)]
  IN CASE t.o \in {"pos", "let", "mvl", "ret", "tmp", "nrm"} -> x    \* nrm: normalized, times the length it had
       [] t.o = "neg" -> [k \in 1..n |-> RNeg(x[k])]
       [] t.o \in {"mul", "lmul"} -> [k \in 1..n |-> RMul(x[k], I(t.i))]
       [] t.o = "div" -> [k \in 1..n |-> RMul(x[k], <<1, t.i>>)]
       [] t.o = "add" -> [k \in 1..n |-> RAdd(x[k], y[k])]
       [] t.o = "minus" -> [k \in 1..n |-> RSub(x[k], y[k])]
       [] t.o = "had" -> [k \in 1..n |-> RMul(x[k], y[k])]
       [] t.o = "cross" -> XVec(LAMBDA k : RSub(RMul(x[((k + 1) % 3) + 1], y[((k + 2) % 3) + 1]), RMul(x[((k + 2) % 3) + 1], y[((k + 1) % 3) + 1])))
       [] t.o = "outer" -> XMat(LAMBDA i, j : RMul(x[i + 1], y[j + 1]))
       [] t.o = "sub" -> XVec(LAMBDA k : IF k < t.i THEN x[k + 1] ELSE x[k + 2])
       [] t.o = "row" -> XVec(LAMBDA k : XAt(x, a.c, t.i, k))
       [] t.o = "col" -> XVec(LAMBDA k : XAt(x, a.c, k, t.i))
       [] t.o = "basis" -> XVec(LAMBDA k : IF m.rb THEN XAt(x, a.c, t.i, k) ELSE XAt(x, a.c, k, t.i))
       [] t.o = "trans" -> XMat(LAMBDA i, j : XAt(x, a.c, j, i))
       [] t.o = "conj" -> <<x[1], RNeg(x[2]), RNeg(x[3]), RNeg(x[4])>>
       [] t.o = "imag" -> <<x[2], x[3], x[4]>>
       [] t.o = "mm" -> XMat(LAMBDA i, j : RSum(a.c, LAMBDA k : RMul(XAt(x, a.c, i, k - 1), XAt(y, b.c, k - 1, j))))
       [] t.o = "mulv" -> XVec(LAMBDA i : RSum(a.c, LAMBDA k : RMul(XAt(x, a.c, i, k - 1), y[k])))
       [] t.o = "vmul" -> XVec(LAMBDA j : RSum(b.r, LAMBDA k : RMul(x[k], XAt(y, b.c, k - 1, j))))
       [] t.o = "qq" -> XQMul(x, y, m.neg)
       [] t.o = "mkq" -> <<I(t.i), x[1], x[2], x[3]>>
       [] t.o = "sdot" -> LET d == RSum(Len(y), LAMBDA k : RMul(y[k], z[k])) IN [k \in 1..n |-> RMul(x[k], d)]
       [] t.o = "inv" -> LET d == RSum(4, LAMBDA k : RMul(y[k], y[k]))     \* y: the operand when it was built
                         IN [k \in 1..4 |-> RDiv(IF k = 1 THEN x[k] ELSE RNeg(x[k]), d)]
Eager(o) == o \in {"mm", "mulv", "vmul", "qq", "mkq", "tmp"}

RECURSIVE Ev(_, _, _, _)
Ev(t, m, a, b) ==
  IF t.o = "x"
  THEN LET w == IF Reads(t.s) THEN b ELSE a  at == VarAt(t.k, t.r, t.c, t.i) IN [k \in 1..NSize(t) |-> I(w[at + k])]
  ELSE LET w == IF Eager(t.o) THEN a ELSE b
           x == Ev(t.kids[1], m, a, w)
           y == IF t.o = "inv" THEN Ev(t.kids[1], m, a, a) ELSE IF t.o = "sdot" THEN Ev(t.kids[2], m, a, a)
                ELSE IF Len(t.kids) > 1 THEN Ev(t.kids[2], m, a, w) ELSE x
           z == IF t.o = "sdot" THEN Ev(t.kids[3], m, a, a) ELSE x
       IN EvOp(t, x, y, z, m)

(* Element-wise trees may be assigned to one of their operands.             *)
RECURSIVE ElementWise(_)
ElementWise(t) == \/ t.o = "x" \/ Eager(t.o)
                  \/ /\ t.o \in {"pos", "neg", "mul", "lmul", "div", "add", "minus", "had", "let", "mvl", "ret", "nrm"}
                     /\ \A k \in 1..Len(t.kids) : ElementWise(t.kids[k])

(* Bounds which keep every intermediate numerator below 2^31: values of     *)
(* named objects lie in -3..3.                                              *)
Cap(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x > 40000 \/ y > 40000 THEN 40001 ELSE IF x * y > 40000 THEN 40001 ELSE x * y
RECURSIVE Bnd(_), Dnm(_)      \* magnitude times denominator; denominator
Dnm(t) == IF t.o = "x" THEN 1
          ELSE LET p == Dnm(t.kids[1])  q == IF Len(t.kids) > 1 THEN Dnm(t.kids[2]) ELSE 1
                   u == IF Len(t.kids) > 2 THEN Dnm(t.kids[3]) ELSE 1 IN
               IF t.o = "div" THEN Cap(p, t.i)
               ELSE IF t.o = "inv" THEN Cap(Cap(p, 4), Cap(Bnd(t.kids[1]), Bnd(t.kids[1]))) ELSE Cap(p, Cap(q, u))
Bnd(t) == IF t.o = "x" THEN 3
          ELSE LET p == Bnd(t.kids[1])  q == IF Len(t.kids) > 1 THEN Bnd(t.kids[2]) ELSE 1
                   u == IF Len(t.kids) > 2 THEN Bnd(t.kids[3]) ELSE 1
                   dp == Dnm(t.kids[1])  dq == IF Len(t.kids) > 1 THEN Dnm(t.kids[2]) ELSE 1 IN
               CASE t.o \in {"mul", "lmul"} -> Cap(p, t.i)
                 [] t.o \in {"add", "minus"} -> Min2(40001, Cap(p, dq) + Cap(q, dp))
                 [] t.o \in {"had", "outer"} -> Cap(p, q)
                 [] t.o = "cross" -> Cap(2, Cap(p, q))
                 [] t.o = "qq" -> Cap(4, Cap(p, q))
                 [] t.o \in {"mm", "mulv", "vmul"} -> Cap(3, Cap(p, q))
                 [] t.o = "sdot" -> Cap(p, Cap(3, Cap(q, u)))
                 [] t.o = "inv" -> Cap(p, Cap(dp, dp))
                 [] t.o = "mkq" -> Cap(Max2(p, t.i), dp)
                 [] OTHER -> p
RECURSIVE Modest(_)
Modest(t) == Bnd(t) <= 20000 /\ Dnm(t) <= 2000 /\ \A k \in 1..Len(t.kids) : Modest(t.kids[k])
(* Every norm divided by is non-zero.                                       *)
RECURSIVE Defined(_, _, _)
Defined(t, m, a) == /\ \A k \in 1..Len(t.kids) : Defined(t.kids[k], m, a)
                    /\ t.o \in {"inv", "nrm"} => \E k \in 1..NSize(t) : Ev(t.kids[1], m, a, a)[k][1] # 0
RECURSIVE Has(_, _)
Has(t, o) == t.o = o \/ \E k \in 1..Len(t.kids) : Has(t.kids[k], o)

(* A program: the expression is evaluated at once into form f (0, 1, 2:     *)
(* initialise, assign, add to a target of fives), kept, read, all objects   *)
(* logged; the objects are given the values b; the kept expression, a copy  *)
(* of it and a moved copy are read and assigned, all objects logged; al >=  *)
(* 0: the kept expression is assigned to that object of its own operands.   *)
ExprOps == {"expr"}
ExprMode(e) == [rb |-> (e.cfg % 2) = 1, neg |-> e.cfg >= 4]
ExprPre(e) == Modest(e.t) /\ Defined(e.t, ExprMode(e), e.a) /\ (e.al >= 0 => ElementWise(e.t))
ExprShow(e) ==
  LET m == ExprMode(e)
      now == Ev(e.t, m, e.a, e.a)
      later == Ev(e.t, m, e.a, e.b)
      env(w) == [k \in 1..EnvLen |-> I(w[k])]
      five == [k \in 1..Len(now) |-> RAdd(now[k], I(5))]
      over == [k \in 1..EnvLen |-> IF e.al >= 0 /\ k > e.al /\ k <= e.al + Len(later) THEN later[k - e.al] ELSE I(e.b[k])]
  IN (IF e.f = 2 THEN five ELSE now) \o now \o env(e.a) \o later \o later \o later \o later \o env(e.b)
     \o (IF e.al >= 0 THEN over ELSE << >>)
ExprAccept(e, o) == LET x == ExprShow(e) IN Len(o.v) = Len(x) /\ \A j \in 1..Len(x) : Near(o.v[j], o.k, x[j])
=============================================================================
