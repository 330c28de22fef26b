----------------------------- MODULE MC_Scalar ------------------------------
(* Small scope: every value and interval of a small range, every tuple of   *)
(* small values: the scalar helpers obey their relations, and all are run.  *)
EXTENDS CmlScalar, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
N == IF Deep THEN 7 ELSE 5
X == (-2 * N)..(2 * N)
Iv == {w \in ((-N \div 2)..N) \X ((-N \div 2)..N) : w[1] <= w[2]}
VARIABLES x, lo, hi
Init == x \in X /\ \E w \in Iv : lo = w[1] /\ hi = w[2]
\* moving by a period
Next == lo < hi /\ x' \in {x + hi - lo, x - hi + lo} /\ x' \in X /\ UNCHANGED <<lo, hi>>
C(op, den) == [op |-> op, a |-> <<x, lo, hi>>, den |-> den]
W(z) == lo + Mod(z - lo, hi - lo)
Clamp == LET c == ScalarExpect(C("sclamp", 1))[1][1] IN
         /\ lo <= c /\ c <= hi /\ (lo <= x /\ x <= hi => c = x) /\ ClampI(c, lo, hi) = c
         /\ (ScalarExpect(C("sinrange", 1)) = <<I(1)>>) = (c = x)
Wrap == lo < hi => /\ lo <= W(x) /\ W(x) < hi /\ (x - W(x)) % (hi - lo) = 0 /\ W(W(x)) = W(x) /\ W(x + hi - lo) = W(x)
Periodic == [][W(x') = W(x)]_<<x, lo, hi>>
\* ends map to ends
Map == lo < hi => \A t \in {-2, 0, 5} : LET M(y) == ScalarExpect([op |-> "smap", a |-> <<y, lo, hi, t, 7>>, den |-> 1])[1] IN
         M(lo) = I(t) /\ M(hi) = I(7) /\ REq(RAdd(M(x), M(lo + hi - x)), I(t + 7))
Orders == \A o \in {0, 2, 4, 6, 8, 10} : AxisCode(AxisOrder(o)) = o
Calls == {[op |-> o, a |-> <<y, w[1], w[2]>>, den |-> 2] : o \in {"sclamp", "sinrange"}, y \in X, w \in Iv}
    \cup {[op |-> "swrap", a |-> <<y, w[1], w[2]>>, den |-> d] : y \in X, d \in {1, 4}, w \in {v \in Iv : v[1] < v[2]}}
    \cup {[op |-> "smap", a |-> <<y, w[1], w[2], -2, 7>>, den |-> 1] : y \in {-3, 0, 1, 4}, w \in {v \in Iv : v[1] < v[2]}}
    \cup {[op |-> "sbest", a |-> v, den |-> 1] : v \in UNION {[1..n -> {-2, 0, 1, 3}] : n \in 2..3}}
    \cup {[op |-> "sbest", a |-> v, den |-> 1] : v \in {u \in [1..4 -> -2..2] : Deep \/ (u[1] + 2 * u[2] + 3 * u[3] + 5 * u[4]) % 3 = 0}}
    \cup {[op |-> "ssign", a |-> <<y>>, den |-> 4] : y \in -3..3}
    \cup {[op |-> "sord", a |-> <<y, w[1], w[2]>>] : y \in -7..7, w \in {v \in (-7..7) \X (-7..7) : v[1] <= v[2]}}
    \cup {[op |-> "scyc", n |-> n, i |-> i] : n \in 4..7, i \in 0..3}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
