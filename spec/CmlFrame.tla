------------------------------ MODULE CmlFrame ------------------------------
(* Orthonormal frames.  The wanted frame is the rotation of a unit          *)
(* quaternion (its axes are the columns), chosen so that the first listed   *)
(* axis is along align and the second lies in the half plane of reference;  *)
(* the third is then determined by the right-hand rule, whatever the order. *)
EXTENDS CmlProj

FrameOps == {"frame2", "frame3", "qbasis"}
\* axes (1, 2, 3) of an axis order as enumerated
AxisOrder(o) == CASE o = 0 -> <<1, 2, 3>> [] o = 2 -> <<1, 3, 2>> [] o = 4 -> <<2, 3, 1>> [] o = 6 -> <<2, 1, 3>> [] o = 8 -> <<3, 1, 2>> [] o = 10 -> <<3, 2, 1>>
\* component of an integer vector along axis n of the frame
Along(e, v, n) == LET R == RotQ(e.q, e.dq) IN RSumSeq([k \in 1..3 |-> RMul(R[(k - 1) * 3 + n], I(v[k]))])
FramePre(e) ==
  CASE e.op = "frame3" -> /\ QNorm(e.q) = e.dq * e.dq
                          /\ LET ax == AxisOrder(e.order) IN
                             /\ Along(e, e.b, ax[1])[1] > 0 /\ Along(e, e.b, ax[2])[1] = 0 /\ Along(e, e.b, ax[3])[1] = 0
                             /\ Along(e, e.c, ax[2])[1] > 0 /\ Along(e, e.c, ax[3])[1] = 0
                             /\ (e.norm = 0 => LenSq(e.b) = e.bd * e.bd)
    [] e.op = "frame2" -> IsLen(e.b) /\ (e.norm = 0 => LenSq(e.b) = e.bd * e.bd)
    [] e.op = "qbasis" -> QNorm(e.q) = e.dq * e.dq
FrameExpect(e, n) ==
  CASE e.op = "frame3" -> IF n = 0 THEN Over(e.q, e.dq) ELSE REmbed(RotQ(e.q, e.dq), 3, n)
    [] e.op = "frame2" -> LET c == Norm(e.b[1], Length(e.b))  s == Norm(e.b[2], Length(e.b))
                          \* the x axis is a quarter turn behind the y axis
                          IN REmbed(IF e.order = 0 THEN Rot2(c, s) ELSE Rot2(s, RNeg(c)), 2, n)
    [] e.op = "qbasis" -> RotQ(e.q, e.dq)
FrameDims(len) == CASE len = 4 -> <<2, 2>> [] len = 6 -> <<2, 3>> [] len = 9 -> <<3, 3>> [] len = 12 -> <<3, 4>> [] len = 16 -> <<4, 4>> [] OTHER -> <<0, 0>>
FrameAccept(e, o) ==
  LET td == 20  tf == 300 IN
  IF o.k \in {"qd", "qf"} THEN Len(o.v) = 4 /\ SameQ(o.v, IF o.k = "qf" THEN "f" ELSE "d", FrameExpect(e, 0), td, tf)
  ELSE LET d == FrameDims(Len(o.v)) IN
       /\ d[1] > 0
       /\ LET M == FrameExpect(e, d[2]) IN AllNearT(o.v, o.k, SubSeq(M, 1, d[1] * d[2]), td, tf)
=============================================================================
