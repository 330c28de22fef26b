------------------------------- MODULE MC_Rot -------------------------------
(* Small scope: the rotations of the cube as a walk of quarter turns, and   *)
(* all Euler orders over small sets of angles.  Composition, orthogonality  *)
(* and the agreement of the matrix, quaternion and Euler descriptions hold  *)
(* of the specification; the same rotations are built, and recovered, by    *)
(* the implementation.                                                      *)
EXTENDS CmlRot, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
IM(f(_, _)) == [x \in 1..9 |-> f(((x - 1) \div 3) + 1, ((x - 1) % 3) + 1)]
Id == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
\* quarter turn about axis n
Quarter(n) == LET r == RotW(n, R0, R1) IN [x \in 1..9 |-> r[x][1]]
Mul3(x, y) == MatMul(Mat(3, 3, x), Mat(3, 3, y)).m
VARIABLES m, steps
Init == m = Id /\ steps = << >>
Next == /\ Len(steps) < 4
        /\ \E n \in 1..3 : m' = Mul3(Quarter(n), m) /\ steps' = Append(steps, n)
Cube == {[x \in 1..9 |-> IF p[((x - 1) \div 3) + 1] = ((x - 1) % 3) + 1 THEN s[((x - 1) \div 3) + 1] ELSE 0] :
           p \in Permutations(1..3), s \in [1..3 -> {1, -1}]}
Rots == {x \in Cube : Det(Mat(3, 3, x)) = 1}
Group == m \in Rots
\* angles as half angles; full turns of a quarter have no rational half angle
H == {<<1, 0, 1>>, <<0, 1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>}
HT == IF Deep THEN H \cup {<<-5, 12, 13>>} ELSE H
EC(o, h) == [op |-> "rote", order |-> o, ca |-> [j \in 1..3 |-> h[j][1]], sa |-> [j \in 1..3 |-> h[j][2]], da |-> [j \in 1..3 |-> h[j][3]]]
RQ(q) == LET P(i, j) == RMul(q[i], q[j])
             D(x, y) == RAdd(x, x)
             T(x) == RAdd(x, x) IN
         << RSub(RSub(RAdd(P(1,1), P(2,2)), P(3,3)), P(4,4)), T(RSub(P(2,3), P(1,4))), T(RAdd(P(2,4), P(1,3))),
            T(RAdd(P(2,3), P(1,4))), RSub(RAdd(RSub(P(1,1), P(2,2)), P(3,3)), P(4,4)), T(RSub(P(3,4), P(1,2))),
            T(RSub(P(2,4), P(1,3))), T(RAdd(P(3,4), P(1,2))), RAdd(RSub(RSub(P(1,1), P(2,2)), P(3,3)), P(4,4)) >>
SameM(x, y) == \A j \in 1..9 : REq(x[j], y[j])
\* every Euler order: the quaternion form and the matrix form are one rotation, and a rotation
EulerLaw == (steps = << >>) =>
  \A o \in 0..11 : \A h \in {w \in H \X H \X H : w[1] = <<3, 4, 5>> \/ w[3] = <<4, -3, 5>>} :
    LET e == EC(o, h)  M == Euler(EulerAxes[o + 1], ECos(e), ESin(e)) IN IsRot3(M) /\ SameM(RQ(EulerQ(e)), M)
\* axis and angle about a coordinate axis is the turn about that axis; quarter angles by cos, sin
AxisLaw == \A n \in 1..3 : \A cs \in {<<I(0), I(1)>>, <<Norm(3, 5), Norm(-4, 5)>>} :
             SameM(RotAxis([j \in 1..3 |-> IF j = n THEN R1 ELSE R0], cs[1], cs[2]), RotW(n, cs[1], cs[2]))
\* every rotation of the cube has angles in every order (they can be recovered)
Turns == {<<I(1), I(0)>>, <<I(0), I(1)>>, <<I(-1), I(0)>>, <<I(0), I(-1)>>}
Complete == steps = << >> => \A o \in 0..11 : \A a \in Rots : \E x \in Turns, y \in Turns, z \in Turns :
              SameM(Euler(EulerAxes[o + 1], <<x[1], y[1], z[1]>>, <<x[2], y[2], z[2]>>), Over(a, 1))
Hurwitz == {q \in [1..4 -> {-1, 1}] : q[1] = 1} \cup {q \in [1..4 -> {-2, 0, 2}] : QNorm(q) = 4}
Z == [p |-> 0, pa |-> 0]
BuildCalls == {[EC(o, h) EXCEPT !.op = x] : x \in {"rote", "qrote"}, o \in 0..11, h \in H \X {<<3, 4, 5>>, <<0, 1, 1>>} \X H}
         \cup {[op |-> "roted", axis |-> n] @@ [k \in (DOMAIN EC(o, h)) \ {"op"} |-> EC(o, h)[k]] : n \in 0..2, o \in {0, 2, 4, 6, 8, 10}, h \in {w \in H \X H \X H : w[1] # w[2] /\ w[2] # w[3]}}
         \cup {[op |-> o, axis |-> n, ca |-> h[1], sa |-> h[2], da |-> h[3], k |-> 0] : o \in {"rotw", "qrotw"}, n \in 0..2, h \in HT}
         \cup {[op |-> "rotq", a |-> q, den |-> 2] : q \in Hurwitz}
         \cup {[op |-> "turn", a |-> q, den |-> 2, b |-> <<3, 6, -6>>, du |-> 9] : q \in Hurwitz}
         \cup {[op |-> "qrotm", a |-> x, den |-> 1] @@ Z : x \in Rots}
RecoverCalls == {[op |-> "toeul", a |-> x, den |-> 1, tol |-> 0, order |-> o] @@ Z : x \in Rots, o \in 0..11}
           \cup {[op |-> "toaa", a |-> x, den |-> 1, tol |-> t] @@ Z : x \in Rots, t \in {0, 1}}
           \cup {[op |-> "qtoeul", a |-> q, den |-> 2, tol |-> 1, order |-> o] @@ Z : q \in Hurwitz, o \in 0..11}
           \cup {[op |-> "qtoaa", a |-> q, den |-> 2, tol |-> t] @@ Z : q \in Hurwitz, t \in {0, 1}}
           \* every cube rotation turned further by a small angle about every axis
           \cup {[op |-> "toeul", a |-> x, den |-> 1, tol |-> 1, order |-> o, p |-> s, pa |-> n] : x \in Rots, o \in 0..11, s \in (IF Deep THEN {-4, -2, 2, 4} ELSE {2, -4}), n \in 0..2}
           \cup {[op |-> "toaa", a |-> x, den |-> 1, tol |-> 1, p |-> s, pa |-> n] : x \in Rots, s \in {-4, 2}, n \in 0..2}
           \cup {[op |-> "qrotm", a |-> x, den |-> 1, p |-> s, pa |-> n] : x \in Rots, s \in {-4, -2, 2, 4}, n \in 0..2}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(IF IOEnv.WHAT = "build" THEN BuildCalls ELSE RecoverCalls))
=============================================================================
