------------------------------ MODULE MC_Quat -------------------------------
(* Small scope: Hamilton's algebra over all quaternions with parts -1, 0, 1 *)
(* and its products with the units; the products of pairs are run on the    *)
(* implementation in both cross conventions.                                *)
EXTENDS CmlQuat, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
Q == [1..4 -> {-1, 0, 1}]
U == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>}
VARIABLES a, b, neg
Init == a \in Q /\ b \in U \cup {<<1, -1, 0, 1>>, <<0, 1, 1, -1>>, <<1, 1, 1, 1>>} /\ neg \in {0, 1}
Next == /\ QNorm(a) <= 4
        /\ a' = QProd(neg, a, b) /\ UNCHANGED <<b, neg>>
Hamilton == /\ QMul(<<0,1,0,0>>, <<0,1,0,0>>) = <<-1,0,0,0>> /\ QMul(<<0,0,1,0>>, <<0,0,1,0>>) = <<-1,0,0,0>> /\ QMul(<<0,0,0,1>>, <<0,0,0,1>>) = <<-1,0,0,0>>
            /\ QMul(<<0,1,0,0>>, <<0,0,1,0>>) = <<0,0,0,1>> /\ QMul(<<0,0,1,0>>, <<0,0,0,1>>) = <<0,1,0,0>> /\ QMul(<<0,0,0,1>>, <<0,1,0,0>>) = <<0,0,1,0>>
Laws == /\ QNorm(QProd(neg, a, b)) = QNorm(a) * QNorm(b)
        /\ QConj(QProd(neg, a, b)) = QProd(neg, QConj(b), QConj(a))
        /\ QProd(neg, a, QConj(a)) = <<QNorm(a), 0, 0, 0>>
        /\ QProd(neg, QOne, a) = a /\ QProd(neg, a, QOne) = a
        /\ QProd(1 - neg, a, b) = QProd(neg, b, a)
        /\ \A c \in U : QProd(neg, QProd(neg, a, b), c) = QProd(neg, a, QProd(neg, b, c)) /\ QProd(neg, a, EAdd(b, c)) = EAdd(QProd(neg, a, b), QProd(neg, a, c))
        \* pure quaternions: the real part is minus the dot product, the rest the cross product
        /\ (a[1] = 0 /\ b[1] = 0) => QMul(a, b) = <<-Dot(Tail(a), Tail(b))>> \o Cross(Tail(a), Tail(b))
B == [den |-> 1, wide |-> 0]
Some(x, y) == Deep \/ (x[1] + 2 * x[2] + 3 * x[3] + 5 * x[4] + 7 * y[1] + 2 * y[2] + 3 * y[3] + y[4]) % 11 = 0
Calls == {[op |-> "qmul", neg |-> n, a |-> z[1], b |-> z[2]] @@ B : n \in {0, 1}, z \in {w \in Q \X Q : Some(w[1], w[2])}}
    \cup {[op |-> "qmul3", neg |-> n, a |-> x, b |-> y, c |-> z] @@ B : n \in {0, 1}, x \in U, y \in U, z \in U}
    \cup {[op |-> o, a |-> x] @@ B : o \in {"qneg", "qconj", "qnorm", "qparts", "qbuild"}, x \in Q}
    \cup {[op |-> "qinv", a |-> x] @@ B : x \in {y \in Q : QNorm(y) > 0}}
    \cup {[op |-> o, a |-> x] @@ B : o \in {"qlen", "qnormalize"}, x \in {y \in Q : QNorm(y) \in {1, 4}}}
    \cup {[op |-> o, a |-> x, b |-> y] @@ B : o \in {"qadd", "qsub", "qdot"}, x \in U, y \in Q}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
