------------------------------- MODULE MC_Vec -------------------------------
(* Small scope: all pairs of space vectors over three values: the           *)
(* identities of the products, then every pair on the implementation.       *)
EXTENDS CmlMat, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
S == [1..3 -> {-1, 0, 2}]
P == [1..2 -> {-2, -1, 0, 3}]
C3 == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -1, 3>>}
VARIABLES a, b
Init == a \in S /\ b \in S
\* rotate the axes cyclically, exchange the operands
Next == \/ a' = ERotate(a) /\ b' = ERotate(b)
        \/ a' = b /\ b' = a
Lagrange == LenSq(Cross(a, b)) + Dot(a, b) * Dot(a, b) = LenSq(a) * LenSq(b)
Products == /\ Cross(a, b) = ENeg(Cross(b, a)) /\ Dot(a, Cross(a, b)) = 0 /\ Dot(b, Cross(a, b)) = 0
            /\ Cross(ERotate(a), ERotate(b)) = ERotate(Cross(a, b))
            /\ \A c \in C3 : /\ Triple(a, b, c) = Dot(a, Cross(b, c)) /\ Triple(a, b, c) = Triple(b, c, a) /\ Triple(a, b, c) = -Triple(b, a, c)
                             /\ Triple(a, b, c) = Det(Transpose(Mat(3, 3, a \o b \o c)))
                             \* the double cross product
                             /\ Cross(a, Cross(b, c)) = ESub(EScale(b, Dot(a, c)), EScale(c, Dot(a, b)))
                             \* the outer product applied to a vector
                             /\ MatVec(Mat(3, 3, Outer(a, b)), c) = EScale(a, Dot(b, c))
                             /\ Manhattan(a, b) <= Manhattan(a, c) + Manhattan(c, b)
Plane == \A p \in P : \A q \in P : PerpDot(p, q) = Dot(Perp(p), q) /\ Perp(Perp(p)) = ENeg(p) /\ PerpDot(p, q) = -PerpDot(q, p)
Ends == (a = b) => Plane
B == [den |-> 1, wide |-> 0]
Some(x, y) == Deep \/ (x[1] + 2 * x[2] + 4 * x[3] + 3 * y[1] + 5 * y[2] + 7 * y[3]) % 4 = 0
Calls == {[op |-> "cross", a |-> x, b |-> y] @@ B : x \in S, y \in S}
    \cup {[op |-> o, a |-> z[1], b |-> z[2]] @@ B : o \in {"dot", "manhattan", "outer"}, z \in {w \in S \X S : Some(w[1], w[2])}}
    \cup {[op |-> "triple", a |-> z[1], b |-> z[2], c |-> t] @@ B : t \in C3, z \in {w \in S \X S : Some(w[2], w[1])}}
    \cup {[op |-> "perp_dot", a |-> x, b |-> y] @@ B : x \in P, y \in P}
    \cup {[op |-> "perp", a |-> x] @@ B : x \in P}
    \cup {[op |-> "projv", a |-> z[1], b |-> z[2]] @@ B : z \in {w \in S \X S : LenSq(w[2]) > 0 /\ Some(w[1], w[2])}}
    \cup {[op |-> o, a |-> x] @@ B : o \in {"length", "normalize"}, x \in {y \in [1..4 -> {-1, 0, 1, 2}] : IsLen(y) /\ LenSq(y) > 0}}
    \cup {[op |-> "subvector", a |-> <<4, -7, 9, 2>>, i |-> i] @@ B : i \in 0..3}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
