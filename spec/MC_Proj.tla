------------------------------- MODULE MC_Proj ------------------------------
(* Small scope: every asymmetric volume below, both handednesses and both   *)
(* depth ranges.  The specified matrices take the corners of the volume to  *)
(* the corners of the clip volume, and the specified planes contain exactly *)
(* their faces with the volume on the positive side.                        *)
EXTENDS CmlProj, Json, IOUtils, TLC, SequencesExt
VARIABLES p, persp
vars == <<p, persp>>
Bounds == {<<-3, 1>>, <<-2, 2>>, <<1, 4>>, <<-5, -1>>}
Depth == {<<1, 3>>, <<2, 7>>, <<1, 2>>}
Calls == {[op |-> IF q = 1 THEN "persp" ELSE "ortho", l |-> x[1], r |-> x[2], b |-> y[1], t |-> y[2], n |-> z[1], f |-> z[2], den |-> 1, hand |-> h, zc |-> zc] :
            q \in {0, 1}, x \in Bounds, y \in Bounds, z \in Depth, h \in {0, 1}, zc \in {0, 1}}
\* the conversions of fields of view and zooms are mutually inverse, and give the sides of a volume
ASSUME \A x, a \in {Rat(i, j) : i, j \in 1..5} :
  /\ REq(FovX(FovY(x, a), a), x) /\ REq(FovY(FovX(x, a), a), x) /\ REq(ZoomOf(ZoomOf(x)), x)
  /\ REq(ZoomOf(FovY(x, a)), RMul(ZoomOf(x), a))
ASSUME \A w, h, n \in 1..5 : REq(FovY(Rat(w, n), Rat(w, h)), Rat(h, n))
Init == \E c \in Calls : p = PB(c) /\ persp = (IF c.op = "persp" THEN 1 ELSE 0)
Next == UNCHANGED vars
M == IF persp = 1 THEN PerspM(p) ELSE OrthoM(p)
Bit == {0, 1}
CornersMap == \A i \in Bit, j \in Bit, k \in Bit :
   LET c == MulPt(M, Corner(p, persp, i, j, k)) IN
   /\ c[4][1] > 0
   /\ REq(c[1], IF i = 0 THEN RNeg(c[4]) ELSE c[4])
   /\ REq(c[2], IF j = 0 THEN RNeg(c[4]) ELSE c[4])
   /\ REq(c[3], RMul(IF k = 0 THEN Near0(p) ELSE R1, c[4]))
\* which corners lie on plane n
On(n, i, j, k) == CASE n = 1 -> i = 0 [] n = 2 -> i = 1 [] n = 3 -> j = 0 [] n = 4 -> j = 1 [] n = 5 -> k = 0 [] n = 6 -> k = 1
PlanesHold == \A n \in 1..6, i \in Bit, j \in Bit, k \in Bit :
   LET d == Dot4(VPlanes(p, persp)[n], Corner(p, persp, i, j, k)) IN IF On(n, i, j, k) THEN d[1] = 0 ELSE d[1] > 0
\* the scaled planes are the sums and differences of the rows of the matrix
Row(i) == SubSeq(M, 4 * i - 3, 4 * i)
FromRows == \A n \in 1..6 :
   LET a == (n + 1) \div 2
       pl == RScale(PScale(p, persp, n), VPlanes(p, persp)[n])
   IN \A j \in 1..4 : REq(pl[j], IF n = 5 THEN RAdd(Row(3)[j], RMul(RNeg(Near0(p)), Row(4)[j]))
                                 ELSE IF n % 2 = 1 THEN RAdd(Row(4)[j], Row(a)[j]) ELSE RSub(Row(4)[j], Row(a)[j]))
\* every case is also executed on the implementation
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
