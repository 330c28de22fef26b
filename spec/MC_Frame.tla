------------------------------ MODULE MC_Frame ------------------------------
(* Small scope: every axis order and a set of wanted frames.  The wanted    *)
(* frame is right-handed and orthonormal, meets the request it is asked     *)
(* for, and is the only such frame among those of the scope.                *)
EXTENDS CmlFrame, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
Q2 == {q \in [1..4 -> {-1, 1}] : q[1] = 1} \cup {q \in [1..4 -> {0, 2}] : QNorm(q) = 4}
Q3 == {q \in [1..4 -> {0, 1, 2}] : QNorm(q) = 9}
Q == {<<q, 2>> : q \in Q2} \cup {<<q, 3>> : q \in Q3}
Orders == {0, 2, 4, 6, 8, 10}
VARIABLES q, order, mix
Init == q \in Q /\ order \in Orders /\ mix \in {<<0, 1>>, <<-2, 1>>, <<3, 2>>}
Next == UNCHANGED <<q, order, mix>>
\* axis n of the frame, over d*d
Axis(x, n) == LET r == RotQ(x[1], x[2]) IN [k \in 1..3 |-> r[(k - 1) * 3 + n][1] * ((x[2] * x[2]) \div r[(k - 1) * 3 + n][2])]
Call(x, o, w, norm, s) == LET ax == AxisOrder(o)  a == Axis(x, ax[1])  b == Axis(x, ax[2]) IN
  [op |-> "frame3", order |-> o, norm |-> norm, q |-> x[1], dq |-> x[2], b |-> EScale(a, s), bd |-> x[2] * x[2],
   c |-> EAdd(EScale(a, w[1]), EScale(b, w[2])), cd |-> 1, p |-> <<1, 2, 3>>]
Wanted == LET e == Call(q, order, mix, 1, 2)  M == FrameExpect(e, 3) IN
  /\ FramePre(e) /\ IsRot3(M)
  /\ LET a == Axis(q, 1)  b == Axis(q, 2)  c == Axis(q, 3) IN Cross(a, b) = EScale(c, q[2] * q[2])
\* another frame of the scope does not meet the same request
Unique == \A y \in Q : FramePre([Call(q, order, mix, 1, 1) EXCEPT !.q = y[1], !.dq = y[2]]) => \A n \in 1..3 : \A k \in 1..3 : Axis(y, n)[k] * q[2] * q[2] = Axis(q, n)[k] * y[2] * y[2]
Calls == {Call(x, o, w, 1, s) : x \in Q, o \in Orders, w \in {<<0, 1>>, <<-2, 1>>, <<3, 2>>}, s \in (IF Deep THEN {1, 2, 7} ELSE {2})}
    \cup {Call(x, o, <<1, 3>>, 0, 1) : x \in Q, o \in Orders}
    \cup {[op |-> "qbasis", q |-> x[1], dq |-> x[2]] : x \in Q}
    \cup {[op |-> "frame2", order |-> o, norm |-> n, b |-> v, bd |-> 5] : o \in {0, 6}, n \in {0, 1}, v \in {<<3, 4>>, <<-3, 4>>, <<4, -3>>, <<-4, -3>>, <<5, 0>>, <<-5, 0>>, <<0, 5>>, <<0, -5>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
