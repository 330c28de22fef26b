------------------------------- MODULE MC_Cmp -------------------------------
(* Small scope: all vectors up to length 3 over three values.  The order is *)
(* total, antisymmetric and transitive and agrees with equality; all pairs  *)
(* are executed on the implementation.                                      *)
EXTENDS CmlCmp, Json, IOUtils, TLC, SequencesExt
Val == {-1, 0, 2}
Vecs == UNION {[1..n -> Val] : n \in 1..3}
Big == IOEnv.TIER = "thorough"
VARIABLES a, b
Init == a \in Vecs /\ b \in Vecs
Next == UNCHANGED <<a, b>>
T(x) == x = <<1, 0>>
Trichotomy == LET s == Six(a, b) IN
  /\ Cardinality({n \in {1, 3, 4} : T(s[n])}) = 1
  /\ T(s[2]) # T(s[1]) /\ T(s[5]) = (T(s[3]) \/ T(s[1])) /\ T(s[6]) = (T(s[4]) \/ T(s[1]))
Transitive == \A c \in Vecs : Lex(a, b) /\ Lex(b, c) => Lex(a, c)
Prefix == \A x \in Val : Lex(a, Append(a, x))
Pairs == {<<x, y>> \in Vecs \X Vecs : Big \/ Len(x) + Len(y) <= 4 \/ x = y}
Calls == {[op |-> "vcmp", a |-> p[1], b |-> p[2], den |-> 1] : p \in Pairs}
      \cup {[op |-> "vhash", a |-> p[1], b |-> p[2], den |-> 1, nz |-> 1] : p \in {q \in Pairs : q[1] = q[2] \/ Len(q[1]) + Len(q[2]) <= 3}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
