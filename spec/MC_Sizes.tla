------------------------------ MODULE MC_Sizes ------------------------------
(* Small scope: every operation over every mixture of small sizes.  A state *)
(* is one call and its outcome; a refused call names one failing            *)
(* requirement.  Every call is also made on the implementation.             *)
EXTENDS CmlSizes, Json, IOUtils, TLC, SequencesExt

Deep == IOEnv.TIER = "thorough"
Ns(k) == IF k = 1 THEN 0..5 ELSE IF k = 2 THEN (IF Deep THEN 0..5 ELSE 0..4) ELSE 1..4
Few(k) == IF k <= 1 THEN (IF Deep THEN 0..5 ELSE 1..4) ELSE IF k = 2 THEN (IF Deep THEN 1..4 ELSE 2..4) ELSE (IF Deep THEN 2..4 ELSE 2..3)
All == (1..5) \X (1..5)
Big == (2..4) \X (2..4)
Mid == (3..4) \X (2..4)
Shapes(f) == IF SzMatN(f) = 2 THEN (IF f = 103 THEN (IF Deep THEN Big ELSE Mid) ELSE IF Deep THEN (1..5) \X (1..4) ELSE (1..4) \X (1..4))
             ELSE IF SzVecN(f) >= 2 /\ ~Deep THEN Big ELSE All
Tuples(f) == LET v == IF SzMatN(f) = 0 THEN Ns(SzVecN(f)) ELSE Few(SzVecN(f))
                 vs == CASE SzVecN(f) = 0 -> {<< >>} [] SzVecN(f) = 1 -> {<<a>> : a \in v}
                        [] SzVecN(f) = 2 -> {<<a, b>> : a \in v, b \in v}
                        [] OTHER -> {<<a, b, d>> : a \in v, b \in v, d \in v}
             IN CASE SzMatN(f) = 0 -> vs
                  [] SzMatN(f) = 1 -> {m \o w : m \in Shapes(f), w \in vs}
                  [] OTHER -> {m \o n \o w : m \in Shapes(f), n \in Shapes(f), w \in vs}
Bases(f) == IF SzMatN(f) = 0 THEN {0} ELSE {0, 1}

VARIABLES f, z, b, out
vars == <<f, z, b, out>>
Init == f \in 1..120 /\ b \in Bases(f) /\ z \in Tuples(f) /\ out = "none"
Next == /\ out = "none"
        /\ LET q == SzErrors(f, z, b) IN out' \in (IF q = {} THEN {"ok"} ELSE q)
        /\ UNCHANGED <<f, z, b>>
Names == {"vector_size_error", "incompatible_vector_size_error", "minimum_vector_size_error", "vector_size_range_error", "incompatible_matrix_size_error",
          "incompatible_matrix_inner_size_error", "non_square_matrix_error", "minimum_matrix_size_error", "matrix_size_error", "affine_matrix_size_error",
          "incompatible_matrix_col_size_error", "incompatible_matrix_row_size_error"}
Total == Len(z) = SzLen(f) /\ out \in Names \cup {"none", "ok"}
\* transposing the shape and changing the basis changes nothing for mathlib operations of one matrix
Flip(w) == <<w[2], w[1]>> \o SubSeq(w, 3, Len(w))
Dual == (f \in SzMatF /\ f \notin {46, 47, 55, 56, 57, 58}) => SzErrors(f, z, b) = SzErrors(f, Flip(z), 1 - b)
\* (A B)^T = B^T A^T, M v = v M^T
Prods == /\ f = 45 => SzErrors(45, z, b) = SzErrors(45, <<z[4], z[3], z[2], z[1]>>, b)
         /\ f = 46 => SzErrors(46, z, b) = SzErrors(47, Flip(z), b)
\* operands of symmetric operations can be exchanged
Sym == /\ f \in {1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 17, 24} => SzErrors(f, z, b) = SzErrors(f, <<z[2], z[1]>>, b)
       /\ f \in {40, 41, 42, 59} => SzErrors(f, z, b) = SzErrors(f, <<z[3], z[4], z[1], z[2]>>, b)

Calls == UNION {UNION {{[op |-> "sz", f |-> k, z |-> y, b |-> a] : y \in Tuples(k)} : a \in Bases(k)} : k \in 1..120}
ASSUME PrintT(<<"calls", Cardinality(Calls)>>) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
