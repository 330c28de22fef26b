------------------------------ MODULE CmlSizes ------------------------------
(* What every operation requires of the sizes of its operands.  A call "sz" *)
(* applies operation f to operands of the sizes z (a vector: its size; a    *)
(* matrix: rows, columns), all matrices with basis b (0 column, 1 row).     *)
(* Every operand keeps its size at run-time or in its type, in any mixture. *)
(* If a requirement fails, the call must report one of the errors of one of *)
(* the failing requirements; if none fails it must not report any.          *)
EXTENDS CmlMStore

SizeOps == {"sz"}

SzReq(holds, errs) == [h |-> holds, e |-> errs]
SzExactV(n, k) == SzReq(n = k, {"vector_size_error"})
\* operands of an angle are also operands of dot(); aligned vectors are first copied to 2D and 3D vectors
SzAngleV(n, k) == SzReq(n = k, {"vector_size_error", "incompatible_vector_size_error", "minimum_vector_size_error"})
SzSameV(n, m) == SzReq(n = m, {"incompatible_vector_size_error"})
SzMinV(n, k) == SzReq(n >= k, {"minimum_vector_size_error"})
SzDot(n, m) == <<SzMinV(n, 1), SzMinV(m, 1), SzSameV(n, m)>>
SzSameM(r, c, s, d) == SzReq(r = s /\ c = d, {"incompatible_matrix_size_error"})
SzInner(c, s) == SzReq(c = s, {"incompatible_matrix_inner_size_error"})
SzSquare(r, c) == SzReq(r = c, {"non_square_matrix_error"})
SzMinM(r, c, k, l) == SzReq(r >= k /\ c >= l, {"minimum_matrix_size_error"})
SzLinear2(r, c) == SzMinM(r, c, 2, 2)
SzLinear3(r, c) == SzMinM(r, c, 3, 3)
\* a translation is the last row (row basis) or the last column (column basis)
SzAffine2(r, c, b) == IF b = 1 THEN SzMinM(r, c, 3, 2) ELSE SzMinM(r, c, 2, 3)
SzAffine3(r, c, b) == IF b = 1 THEN SzMinM(r, c, 4, 3) ELSE SzMinM(r, c, 3, 4)
SzHomog(r, c) == SzMinM(r, c, 4, 4)
SzExactM(r, c, k, l) == SzReq(r = k /\ c = l, {"matrix_size_error"})
SzRangeV(n, k, l) == SzReq(n >= k /\ n <= l, {"vector_size_range_error"})
\* a rotation and translation is square, or has one more row (row basis) or column (column basis)
SzRT(r, c, b) == LET m == IF b = 1 THEN r ELSE c  n == IF b = 1 THEN c ELSE r
                 IN SzReq(m = n \/ m = n + 1, {"affine_matrix_size_error"})

SzVec(f, n, m, p) ==
  CASE f \in {1, 2, 3, 4, 20, 21, 22, 23} -> <<SzSameV(n, m)>>
    [] f \in {5, 11, 12, 13} -> SzDot(n, m)
    [] f \in {6, 18} -> <<SzExactV(n, 3), SzExactV(m, 3)>>
    [] f \in {17, 36, 39} -> <<SzAngleV(n, 3), SzAngleV(m, 3)>>
    [] f \in {14, 15} -> <<SzAngleV(n, 2), SzAngleV(m, 2)>>
    [] f = 7 -> <<SzExactV(n, 2), SzExactV(m, 2)>>
    [] f = 8 -> <<SzExactV(n, 3), SzExactV(m, 3), SzExactV(p, 3)>>
    [] f \in {16, 37} -> <<SzAngleV(n, 3), SzAngleV(m, 3), SzAngleV(p, 3)>>
    [] f \in {9, 24} -> << >>
    [] f \in {10, 26, 29} -> <<SzExactV(n, 2)>>
    [] f = 38 -> <<SzAngleV(n, 2)>>
    [] f \in {19, 25, 32} -> <<SzMinV(n, 1)>>
    [] f \in {27, 28, 30, 31, 33, 34, 35} -> <<SzExactV(n, 3)>>
\* operations of one matrix, or a matrix and vectors or scalars
SzMat(f, b, r, c, n, m, p) ==
  CASE f = 46 -> <<SzInner(c, n)>>
    [] f = 47 -> <<SzInner(n, r)>>
    [] f \in {48, 49, 50, 51, 53, 54} -> <<SzSquare(r, c)>>
    [] f = 52 -> << >>
    [] f = 55 -> <<SzSquare(r, c), SzInner(c, n)>>
    [] f = 56 -> <<SzSquare(r, c), SzInner(c, n), SzInner(c, m)>>
    [] f = 57 -> <<SzReq(c = n, {"incompatible_matrix_col_size_error"})>>
    [] f = 58 -> <<SzReq(r = n, {"incompatible_matrix_row_size_error"})>>
    [] f \in {60, 63, 68, 69, 88} -> <<SzLinear2(r, c)>>
    [] f \in {61, 70, 71, 90, 92, 95, 98, 99, 119, 120} -> <<SzLinear3(r, c)>>
    [] f \in {62, 66, 67, 91, 93, 94, 110} -> <<SzLinear3(r, c), SzExactV(n, 3)>>
    [] f \in {64, 65, 108} -> <<SzLinear2(r, c), SzExactV(n, 2)>>
    [] f = 89 -> <<SzLinear2(r, c), SzAngleV(n, 2)>>
    [] f = 72 -> <<SzLinear2(r, c), SzExactV(n, 2), SzExactV(m, 2)>>
    [] f = 73 -> <<SzLinear3(r, c), SzExactV(n, 3), SzExactV(m, 3), SzExactV(p, 3)>>
    [] f \in {74, 76, 82, 104} -> <<SzAffine2(r, c, b)>>
    [] f \in {75, 77, 83, 86, 109} -> <<SzAffine2(r, c, b), SzExactV(n, 2)>>
    [] f \in {78, 80, 84, 105} -> <<SzAffine3(r, c, b)>>
    [] f \in {79, 81} -> <<SzAffine3(r, c, b), SzRangeV(n, 2, 3)>>
    [] f = 96 -> <<SzLinear3(r, c), SzAngleV(n, 3), SzAngleV(m, 3)>>
    [] f = 97 -> <<SzLinear3(r, c), SzAngleV(n, 3), SzAngleV(m, 3), SzAngleV(p, 3)>>
    [] f = 100 -> <<SzAffine3(r, c, b), SzAngleV(n, 3), SzAngleV(m, 3), SzAngleV(p, 3)>>
    [] f = 102 -> <<SzAffine3(r, c, b), SzExactV(n, 3), SzRangeV(m, 2, 3)>>
    [] f = 106 -> <<SzRT(r, c, b)>>
    [] f \in {85, 87, 111} -> <<SzAffine3(r, c, b), SzExactV(n, 3)>>
    [] f = 112 -> <<SzExactM(r, c, 4, 4), SzExactV(n, 4)>>
    [] f = 113 -> <<SzExactM(r, c, 4, 4), SzExactV(n, 3)>>
    [] f \in {114, 115, 116, 117, 118} -> <<SzHomog(r, c)>>
\* operations of two matrices
SzMat2(f, b, r, c, s, d, n) ==
  CASE f \in {40, 41, 42, 43, 44, 59} -> <<SzSameM(r, c, s, d)>>
    [] f = 45 -> <<SzInner(c, s)>>
    [] f = 101 -> <<SzLinear3(r, c), SzLinear3(s, d)>>
    [] f = 103 -> <<SzAffine3(r, c, b), SzLinear3(s, d), SzRangeV(n, 2, 3)>>
    [] f = 107 -> <<SzSquare(r, c), SzSquare(s, d), SzInner(c, s)>>

SzVecF == 1..39
SzMat2F == {40, 41, 42, 43, 44, 45, 59, 101, 103, 107}
SzMatF == (40..120) \ SzMat2F
SzAt(z, k) == IF k > Len(z) THEN 0 ELSE z[k]
SzReqs(f, z, b) == IF f \in SzVecF THEN SzVec(f, SzAt(z, 1), SzAt(z, 2), SzAt(z, 3))
                   ELSE IF f \in SzMat2F THEN SzMat2(f, b, z[1], z[2], z[3], z[4], SzAt(z, 5))
                   ELSE SzMat(f, b, z[1], z[2], SzAt(z, 3), SzAt(z, 4), SzAt(z, 5))
SzErrors(f, z, b) == LET q == SzReqs(f, z, b) IN UNION {q[j].e : j \in {x \in 1..Len(q) : ~q[x].h}}
\* number of vectors and matrices among the operands, in order: matrices come first
SzMatN(f) == IF f \in SzVecF THEN 0 ELSE IF f \in SzMat2F THEN 2 ELSE 1
SzVecN(f) == CASE f \in {8, 16, 37, 73, 97, 100} -> 3
               [] f \in {10, 19} \cup (25..35) \cup {38} -> 1
               [] f \in (1..39) \cup {56, 72, 96, 102} -> 2
               [] f \in {46, 47, 55, 57, 58, 62, 64, 65, 66, 67, 75, 77, 79, 81, 83, 85, 86, 87, 89, 91, 93, 94, 103} \cup (108..113) -> 1
               [] OTHER -> 0
SzLen(f) == 2 * SzMatN(f) + SzVecN(f)
\* operand j: its sizes and its elements before the call
SzElem(j, k) == 3 * k + 7 * j + 1
SzOperand(f, z, j) ==
  IF j <= SzMatN(f)
  THEN LET r == z[2 * j - 1]  c == z[2 * j]
       IN <<r, c>> \o [k \in 1..(r * c) |-> SzElem(j, k - 1) + (IF (k - 1) \div c = (k - 1) % c THEN 20 ELSE 0)]
  ELSE LET n == z[2 * SzMatN(f) + (j - SzMatN(f))] IN <<n>> \o [k \in 1..n |-> SzElem(j, k - 1)]
\* operations that write operand 1, and those of them which build it in several steps
SzWrites == {20, 21, 22, 23, 25, 29, 30, 31, 32, 43, 44, 51, 57, 58, 62, 63, 64, 65, 66, 67} \cup (72..75) \cup (77..79) \cup (81..97) \cup (100..106) \cup {114, 115, 116}
SzBuilders == {29, 30, 31, 72, 73, 77, 81} \cup (82..97) \cup {100, 101, 102, 103}
SzKinds == <<"x", "y", "z", "w">>
SzFree(e, j) == (j = 1 /\ (e.f \in SzBuilders \/ (e.f \in SzWrites /\ SzErrors(e.f, e.z, e.b) = {}))) \/ (e.f = 56 /\ j = 3)
SzKeeps(e, o) == \E j \in 1..(SzMatN(e.f) + SzVecN(e.f)) :
                   o.k = SzKinds[j] /\ (SzFree(e, j) \/ (o.e = "" /\ LET v == SzOperand(e.f, e.z, j) IN AllNear(o.v, "d", [k \in 1..Len(v) |-> I(v[k])])))
SzAccept(e, o) == IF o.k \in {"x", "y", "z", "w"} THEN SzKeeps(e, o)
                  ELSE LET q == SzErrors(e.f, e.z, e.b) IN IF q = {} THEN o.e = "" ELSE o.e \in q
SzPre(e) == e.f \in 1..120 /\ Len(e.z) = SzLen(e.f) /\ e.b \in {0, 1}
=============================================================================
