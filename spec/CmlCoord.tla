------------------------------ MODULE CmlCoord ------------------------------
(* Polar, cylindrical and spherical coordinates, angles between vectors and *)
(* turning a vector.  Angles are given, and logged, by cosine and sine; a   *)
(* logged angle also carries its value, which has to lie in its range.      *)
EXTENDS CmlFrame

CoordOps == {"polar", "cyl", "sph", "cpolar", "ccyl", "csph", "sang", "uang", "rotv"}
CR(e) == Norm(e.p, e.den)
TC(e) == Norm(e.tc, e.td)
TS(e) == Norm(e.ts, e.td)
\* inclination from the axis: a latitude is measured from the base plane
PC(e) == IF e.lat = 1 THEN Norm(e.ps, e.pd) ELSE Norm(e.pc, e.pd)
PS(e) == IF e.lat = 1 THEN Norm(e.pc, e.pd) ELSE Norm(e.ps, e.pd)
\* value u on the axis, v and w on the next two in cyclic order
OnAxes(axis, u, v, w) == [j \in 1..3 |-> CASE j = axis + 1 -> u [] j = ((axis + 1) % 3) + 1 -> v [] OTHER -> w]
\* components of the call's vector on the axis and the next two
Ax(e, n) == e.b[((e.axis + n) % 3) + 1]
Flat2(e) == <<Ax(e, 1), Ax(e, 2)>>
Quot(x, y) == IF y = 0 THEN <<0, 1>> ELSE Norm(x, y)
\* cosine and sine of the angle of (x, y), the angle 0 for none
Dir(x, y, len, none) == IF none THEN <<R1, R0>> ELSE <<Norm(x, len), Norm(y, len)>>
Below(len, e) == len = 0 \/ (e.tol > 0 /\ 2 * len < e.tol * e.den)   \* tolerance tol/2
CoordPre(e) == CASE e.op \in {"polar", "cyl"} -> Pyth(e.tc, e.ts, e.td)
                 [] e.op = "sph" -> Pyth(e.tc, e.ts, e.td) /\ Pyth(e.pc, e.ps, e.pd) 
                 [] e.op = "cpolar" -> IsLen(e.b)
                 [] e.op = "ccyl" -> IsLen(Flat2(e))
                 [] e.op = "csph" -> IsLen(Flat2(e)) /\ (e.fine = 0 => IsLen(e.b))
                 [] e.op \in {"sang", "uang"} -> (e.fine = 0 => IsLen(e.a) /\ IsLen(e.b) /\ LenSq(e.a) > 0 /\ LenSq(e.b) > 0) /\
                                                 (Len(e.a) = 3 => IsLen(Cross(e.a, e.b)) /\ ((e.op = "sang" /\ LenSq(Cross(e.a, e.b)) > 0) => Dot(Cross(e.a, e.b), e.c) # 0))
                 [] e.op = "rotv" -> Pyth(e.tc, e.ts, e.td) /\ LenSq(e.u) = e.du * e.du
CoordExpect(e) ==
  CASE e.op = "polar" -> <<RMul(CR(e), TC(e)), RMul(CR(e), TS(e))>>
    [] e.op = "cyl" -> OnAxes(e.axis, Norm(e.h, e.den), RMul(CR(e), TC(e)), RMul(CR(e), TS(e)))
    [] e.op = "sph" -> OnAxes(e.axis, RMul(CR(e), PC(e)), RMul(CR(e), RMul(PS(e), TC(e))), RMul(CR(e), RMul(PS(e), TS(e))))
    [] e.op = "cpolar" -> LET l == Length(e.b) IN <<Rat(l, e.den)>> \o Dir(e.b[1], e.b[2], l, Below(l, e))
    [] e.op = "ccyl" -> LET l == Length(Flat2(e)) IN <<Rat(l, e.den), Rat(Ax(e, 0), e.den)>> \o Dir(Ax(e, 1), Ax(e, 2), l, Below(l, e))
    [] e.op = "csph" -> LET l == Length(Flat2(e))  r == Length(e.b)
                            phi == IF e.lat = 1 THEN Dir(l, Ax(e, 0), r, Below(r, e)) ELSE Dir(Ax(e, 0), l, r, Below(r, e))
                        IN <<Rat(r, e.den)>> \o phi \o Dir(Ax(e, 1), Ax(e, 2), l, Below(l, e))
    [] e.op \in {"sang", "uang"} ->
         LET n == Length(e.a) * Length(e.b)
             s == IF Len(e.a) = 2 THEN PerpDot(e.a, e.b) ELSE IF LenSq(Cross(e.a, e.b)) > 0 /\ e.op = "sang" /\ Dot(Cross(e.a, e.b), e.c) < 0 THEN -Length(Cross(e.a, e.b)) ELSE Length(Cross(e.a, e.b))
         IN <<Norm(Dot(e.a, e.b), n), Norm(IF e.op = "uang" THEN Abs(s) ELSE s, n)>>
    [] e.op = "rotv" -> LET R == RotAxis([j \in 1..3 |-> Norm(e.u[j], e.du)], TC(e), TS(e))
                        IN [i \in 1..3 |-> RSumSeq([k \in 1..3 |-> RMul(R[(i - 1) * 3 + k], Rat(e.b[k], e.den))])]
Pi6 == 3141593
InArc(o, lo, hi) == Small(o) /\ Micro(o) >= lo - 20 /\ Micro(o) <= hi + 20
\* the raw angles logged after the expected numbers
CoordArcs(e, v) == CASE e.op \in {"cpolar", "ccyl"} -> InArc(v[1], -Pi6, Pi6)
                     [] e.op = "csph" -> (IF e.lat = 1 THEN InArc(v[1], -(Pi6 \div 2), Pi6 \div 2) ELSE InArc(v[1], 0, Pi6)) /\ InArc(v[2], -Pi6, Pi6)
                     [] e.op = "sang" -> InArc(v[1], -Pi6, Pi6)
                     [] e.op = "uang" -> InArc(v[1], 0, Pi6)
                     [] OTHER -> TRUE
NArcs(e) == CASE e.op \in {"cpolar", "ccyl", "sang", "uang"} -> 1 [] e.op = "csph" -> 2 [] OTHER -> 0
(* Nearly parallel vectors: the angle is (x, y) in cosine and sine, up to a *)
(* scale, to the last logged digits.                                        *)
Steep(c, s, x, y, tol) == LET g == Gcd(x, y)  X == x \div g  Y == y \div g IN
                          /\ Small(c) /\ Small(s)
                          /\ Abs(X) + Abs(Y) <= 2000
                          /\ Abs(Micro(s) * X - Micro(c) * Y) <= tol * (Abs(X) + Abs(Y))
                          /\ Sgn(Micro(c)) = Sgn(x)
                          /\ Abs(Micro(s)) > 2 => Sgn(Micro(s)) = Sgn(y)
FineOk(e, o) ==
  IF e.op = "csph" THEN
    LET l == Length(Flat2(e)) IN
    /\ Len(o.v) = 7
    /\ IF e.lat = 1 THEN Steep(o.v[2], o.v[3], l, Ax(e, 0), 3) ELSE Steep(o.v[2], o.v[3], Ax(e, 0), l, 3)
    /\ AllNearT(SubSeq(o.v, 4, 5), o.k, Dir(Ax(e, 1), Ax(e, 2), l, l = 0), 20, 300)
    /\ CoordArcs(e, SubSeq(o.v, 6, 7))
  ELSE
    LET s == IF Len(e.a) = 2 THEN PerpDot(e.a, e.b) ELSE IF e.op = "sang" /\ Dot(Cross(e.a, e.b), e.c) < 0 THEN -Length(Cross(e.a, e.b)) ELSE Length(Cross(e.a, e.b)) IN
    /\ Len(o.v) = 3
    /\ Steep(o.v[1], o.v[2], Dot(e.a, e.b), IF e.op = "uang" THEN Abs(s) ELSE s, 3)
    /\ CoordArcs(e, SubSeq(o.v, 3, 3))
CoordAccept(e, o) ==
  IF e.op \in {"sang", "uang", "csph"} /\ e.fine = 1 THEN FineOk(e, o) ELSE
  LET x == CoordExpect(e)  n == Len(x) IN
  /\ Len(o.v) = n + NArcs(e)
  /\ AllNearT(SubSeq(o.v, 1, n), o.k, x, 20, 300)
  /\ CoordArcs(e, SubSeq(o.v, n + 1, Len(o.v)))
=============================================================================
