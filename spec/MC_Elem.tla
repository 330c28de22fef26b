------------------------------ MODULE MC_Elem -------------------------------
(* Small scope: all pairs of vectors of length 2 (and 2x2 matrices with two *)
(* free elements) over four values: the vector space laws hold of the       *)
(* specification, and every pair is run on the implementation.              *)
EXTENDS CmlElem, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
Val == IF Deep THEN {-3, -1, 0, 1, 2} ELSE {-3, 0, 1, 2}
V == [1..2 -> Val]
Ks == {-2, 0, 1, 3}
VARIABLES a, b
Init == a \in V /\ b \in V
\* the walk of in-place changes: scale, exchange, add
Next == \/ a' = EAdd(a, b) /\ Abs(a[1]) + Abs(a[2]) < 12 /\ b' = b
        \/ a' = b /\ b' = a
Laws == /\ EAdd(a, b) = EAdd(b, a) /\ ESub(a, b) = EAdd(a, ENeg(b)) /\ ESub(EAdd(a, b), b) = a
        /\ EMul(a, b) = EMul(b, a) /\ \A s \in Ks : EScale(EAdd(a, b), s) = EAdd(EScale(a, s), EScale(b, s)) /\ EScale(a, s) = EMul(a, EFill(a, s))
        /\ \A c \in V : EAdd(EAdd(a, b), c) = EAdd(a, EAdd(b, c)) /\ EMul(a, EAdd(b, c)) = EAdd(EMul(a, b), EMul(a, c))
        /\ EAdd(Zip(EMin, a, b), Zip(EMax, a, b)) = EAdd(a, b) /\ Zip(EMin, a, a) = a
        /\ \A s \in Ks : s # 0 => [j \in 1..2 |-> EDiv(EScale(a, s), s, "i", 1)[j][1]] = a
B == [den |-> 1, wide |-> 0, sd |-> 1]
VCalls == {[op |-> o, a |-> x, b |-> y] @@ B : o \in {"vadd", "vsub", "vhad"}, x \in V, y \in V}
     \cup {[op |-> "vpm", which |-> w, a |-> x, b |-> y] @@ B : w \in 0..4, x \in V, y \in V}
     \cup {[op |-> o, a |-> x, s |-> k] @@ B : o \in {"vmuls", "vdivs"}, x \in V, k \in {-2, 1, 3}}
     \cup {[op |-> "vin", which |-> w, a |-> x, s |-> k, e |-> 0] @@ B : w \in 0..3, x \in V, k \in {-2, 1, 3}}
MCalls == {[op |-> o, r |-> 2, c |-> 2, a |-> x \o y, b |-> y \o x] @@ B : o \in {"madd", "msub", "mhad"}, x \in V, y \in V}
     \cup {[op |-> "mpm", which |-> w, r |-> 2, c |-> 2, a |-> x \o y, b |-> y \o x] @@ B : w \in {0, 1, 4}, x \in V, y \in V}
Calls == IF IOEnv.WHAT = "vec" THEN VCalls ELSE MCalls
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
