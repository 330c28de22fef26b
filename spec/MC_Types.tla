------------------------------ MODULE MC_Types ------------------------------
(* The rules for result types: promotion is a symmetric, associative join   *)
(* that never loses range or fraction; sizes, basis and layout of a sum do  *)
(* not depend on the order or grouping of its operands.                     *)
EXTENDS CmlTypes, Json, IOUtils, TLC, SequencesExt
K == 1..8
Tags == 0..2
VARIABLES k1, k2, k3, s1, s2
Init == k1 \in K /\ k2 \in K /\ k3 \in K /\ s1 \in 0..3 /\ s2 \in 0..3
Next == \* one more operand joins the sum
        k1' = Common(k1, k2) /\ UNCHANGED <<k2, k3, s1, s2>>
Float(k) == k >= 6
Join3 == /\ Common(k1, k2) = Common(k2, k1) /\ Common(k1, k1) = k1
         /\ Common(k1, k2) >= Max2(k1, k2) \/ Common(k1, k2) = 3
         /\ (Float(k1) \/ Float(k2)) = Float(Common(k1, k2))
         \* grouping changes at most whether narrow integers were widened on the way
         /\ LET a == Common(Common(k1, k2), k3)  b == Common(k1, Common(k2, k3)) IN a = b \/ (k1 <= 2 /\ k2 <= 2 /\ k3 <= 2)
Shape == /\ Join(s1, s2) = Join(s2, s1) /\ (FixedSz(s1) => Join(s1, s2))
         /\ LET t == [op |-> "tvv", k1 |-> k1, k2 |-> k2, s1 |-> s1, s2 |-> s2, n |-> 3]  u == [t EXCEPT !.k1 = k2, !.k2 = k1, !.s1 = s2, !.s2 = s1]
            IN \A k \in {"add", "sub", "had", "cross", "dot"} : TypeExpect(t, k) = TypeExpect(u, k)
Tagged == \A a \in Tags, b \in Tags, c \in Tags : /\ Meet(a, b) = Meet(b, a) /\ Meet(a, a) = a /\ Meet(a, 2) = a
Pairs == {[op |-> "tvv", k1 |-> a, k2 |-> b, s1 |-> st[1], s2 |-> st[2], n |-> 3] : a \in K, b \in K, st \in {<<0, 0>>, <<1, 1>>, <<0, 3>>}}
\* every name in types.h
Alias(f, k, t, r, c, x) == [op |-> "talias", fam |-> f, k |-> k, cst |-> t, r |-> r, c |-> c, sfx |-> x]
Named == ({Alias(1, k, 0, n, 0, 0) : k \in {3, 6, 7}, n \in {0, 2, 3, 4}} \cup {Alias(2, k, t, n, 0, 0) : k \in {3, 6, 7}, t \in 0..1, n \in {0, 2, 3, 4}}
         \cup {Alias(f, k, 0, d[1], d[2], 0) : f \in 3..4, k \in {3, 6, 7}, d \in {<<0, 0>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<2, 3>>, <<3, 4>>}}
         \cup {Alias(f, k, 0, d[1], d[2], 1) : f \in 3..4, k \in {3, 6, 7}, d \in {<<0, 0>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<3, 2>>, <<4, 3>>}}
         \cup {Alias(f, k, 0, d[1], d[2], 2) : f \in 3..4, k \in {3, 6, 7}, d \in {<<0, 0>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<2, 3>>, <<3, 4>>}}
         \cup {Alias(5, k, 0, 4, 1, x) : k \in {6, 7}, x \in 0..6}
         \cup {Alias(3, 6, 0, 3, 2, 0)})
Calls == IF IOEnv.WHAT = "names" THEN Named ELSE Pairs
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
