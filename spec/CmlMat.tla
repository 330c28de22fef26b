------------------------------- MODULE CmlMat -------------------------------
(* Matrices over the integers: [r |-> rows, c |-> cols, m |-> elements in   *)
(* row order].  Determinants are computed by expansion, inverses by         *)
(* cofactors, LU factors by ratios of minors: none of these is the          *)
(* algorithm of the implementation.                                         *)
EXTENDS CmlVec

Mat(r, c, m) == [r |-> r, c |-> c, m |-> m]
At(A, i, j) == A.m[(i - 1) * A.c + j]
Build(r, c, f(_, _)) == Mat(r, c, [n \in 1..(r * c) |-> f(((n - 1) \div c) + 1, ((n - 1) % c) + 1)])
RowOf(A, i) == [j \in 1..A.c |-> At(A, i, j)]
ColOf(A, j) == [i \in 1..A.r |-> At(A, i, j)]
Transpose(A) == Build(A.c, A.r, LAMBDA i, j : At(A, j, i))
MatMul(A, B) == Build(A.r, B.c, LAMBDA i, j : Dot(RowOf(A, i), ColOf(B, j)))
MatVec(A, v) == [i \in 1..A.r |-> Dot(RowOf(A, i), v)]
VecMat(v, A) == [j \in 1..A.c |-> Dot(v, ColOf(A, j))]
Ident(n) == Build(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
TraceOf(A) == SumSeq([i \in 1..A.r |-> At(A, i, i)])
Skip(n, i) == IF n < i THEN n ELSE n + 1
Minor(A, p, q) == Build(A.r - 1, A.c - 1, LAMBDA i, j : At(A, Skip(i, p), Skip(j, q)))
RECURSIVE Det(_)
Det(A) == IF A.r = 0 THEN 1
          ELSE IF A.r = 1 THEN A.m[1]
          ELSE IF A.r = 2 THEN A.m[1] * A.m[4] - A.m[2] * A.m[3]
          ELSE SumSeq([j \in 1..A.c |-> IF At(A, 1, j) = 0 THEN 0
                                        ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * At(A, 1, j) * Det(Minor(A, 1, j))])
Cofactor(A, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, i, j))
Adj(A) == Build(A.r, A.r, LAMBDA i, j : Cofactor(A, j, i))
MaxAbs(s) == LET RECURSIVE F(_)
                 F(n) == IF n = 0 THEN 0 ELSE Max2(F(n - 1), Abs(s[n]))
             IN F(Len(s))

Limit == 500000000
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Limit \div b THEN Limit ELSE a * b
(* Bound on the magnitude of a determinant, for float rounding. *)
Hadamard(A) == LET RECURSIVE F(_)
                   F(i) == IF i = 0 THEN 1 ELSE SatMul(F(i - 1), Max2(1, Isqrt(LenSq(RowOf(A, i))) + 1))
               IN F(A.r)
DetTolF(A) == SatMul(A.r * A.r, Hadamard(A))

(* Leading minors: rows 1..k-1 and i, columns 1..k-1 and j. *)
Bord(A, k, i, j) == LET R(n) == IF n < k THEN n ELSE i
                        C(n) == IF n < k THEN n ELSE j
                    IN Det(Build(k, k, LAMBDA p, q : At(A, R(p), C(q))))
Lead(A, k) == IF k = 0 THEN 1 ELSE Bord(A, k, k, k)
LUable(A) == \A k \in 1..(A.r - 1) : Lead(A, k) /= 0
(* Element (i,j) of the packed factors: U on and above the diagonal, L below. *)
LUAt(A, i, j) == IF i <= j THEN Norm(Bord(A, i, i, j), Lead(A, i - 1))
                 ELSE Norm(Bord(A, j, i, j), Lead(A, j))
LUPacked(A) == [n \in 1..(A.r * A.r) |-> LUAt(A, ((n - 1) \div A.r) + 1, ((n - 1) % A.r) + 1)]
PermRows(A, p) == Build(A.r, A.c, LAMBDA i, j : At(A, p[i] + 1, j))
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)
Parity(p) == LET inv == Cardinality({x \in (1..Len(p)) \X (1..Len(p)) : x[1] < x[2] /\ p[x[1]] > p[x[2]]})
             IN IF inv % 2 = 0 THEN 1 ELSE -1
ReplCol(A, k, b) == Build(A.r, A.c, LAMBDA i, j : IF j = k THEN b[i] ELSE At(A, i, j))
Solve(A, b) == LET d == Det(A) IN [k \in 1..A.r |-> Norm(Det(ReplCol(A, k, b)), d)]

Inverse(A) == LET d == Det(A)  a == Adj(A) IN [n \in 1..Len(a.m) |-> Norm(a.m[n], d)]
InvTolF(A) == LET d == Abs(Det(A))  a == MaxAbs(Adj(A).m)
                  x == a \div d + 1
                  cond == SatMul(MaxAbs(A.m) * A.r, ((a * A.r) \div d) + 1)
              IN SatMul(5, SatMul(cond, x))

MatOps == {"mm", "mmself", "mv", "transpose", "trace", "det", "inverse", "lu", "lup", "lusolve", "trace22", "trace33"}
MA(e) == Mat(e.r, e.c, e.a)
MatPre(e) == CASE e.op \in {"inverse"} -> Det(MA(e)) /= 0
               [] e.op = "lu" -> LUable(MA(e))
               [] e.op = "lusolve" -> Det(MA(e)) /= 0 /\ (e.which = 0 => LUable(MA(e)))
               [] OTHER -> TRUE
MatExpect(e, k) ==
  LET d == e.den IN
  CASE e.op = "mm" -> Over(MatMul(Mat(e.r, e.k, e.a), Mat(e.k, e.c, e.b)).m, d * d)
    \* stored over an operand
    [] e.op = "mmself" -> InObject(MatMul(Mat(e.r, e.k, e.a), Mat(e.k, e.c, e.b)).m, d * d, k)
    [] e.op = "mv" -> Over(IF e.which = 0 THEN MatVec(Mat(e.r, e.k, e.a), e.b) ELSE VecMat(e.b, Mat(e.r, e.k, e.a)), d * d)
    [] e.op = "transpose" -> Over(Transpose(MA(e)).m, d)
    [] e.op = "trace" -> <<Rat(TraceOf(MA(e)), d)>>
    [] e.op = "trace22" -> <<Rat(e.a[1] + At(MA(e), 2, 2), d)>>
    [] e.op = "trace33" -> <<Rat(e.a[1] + At(MA(e), 2, 2) + At(MA(e), 3, 3), d)>>
    [] e.op = "det" -> <<I(Det(MA(e)))>>
    [] e.op = "inverse" -> Inverse(MA(e))
    [] e.op = "lu" -> LUPacked(MA(e))
    [] e.op = "lusolve" -> Solve(MA(e), e.b)

(* Pivoted factorization: v = sign, permutation, packed factors. *)
LupOk(e, o) ==
  LET n == e.r  A == MA(e)
      sign == o.v[1][1]
      p == [i \in 1..n |-> o.v[i + 1][1]]
      f == SubSeq(o.v, n + 2, Len(o.v))
  IN /\ Len(o.v) = 1 + n + n * n
     /\ IF Det(A) = 0 THEN sign = 0
        ELSE /\ IsPerm(p, n)
             /\ sign = Parity(p)
             /\ LET B == PermRows(A, p) IN
                /\ LUable(B)
                /\ LET lu == LUPacked(B) IN
                   /\ AllNearT(f, o.k, lu, 30, DetTolF(A))
                   \* partial pivoting: no multiplier exceeds one
                   /\ \A i \in 1..n : \A j \in 1..(i - 1) : LET x == lu[(i - 1) * n + j] IN Abs(x[1]) <= x[2]

(* A float solution by the pivoted factors: the residual is small.          *)
Solved(e, o) ==
  LET n == e.r  A == MA(e).m
      r(i) == SumSeq([j \in 1..n |-> A[(i - 1) * n + j] * Micro(o.v[j])]) - e.b[i] * Million
      big == CHOOSE b \in 0..30 : (\A j \in 1..n : Abs(o.v[j][1]) <= b) /\ (b = 0 \/ \E j \in 1..n : Abs(o.v[j][1]) = b)
  IN /\ Len(o.v) = n
     /\ \A j \in 1..n : Finite(o.v[j])
     /\ (\A j \in 1..n : Abs(o.v[j][1]) <= 30) => \A i \in 1..n : Abs(r(i)) <= n * MaxAbs(A) * (4 + 8 * (big + 1))
MatAccept(e, o) ==
  CASE e.op = "lup" -> LupOk(e, o)
    [] e.op = "det" -> AllNearT(o.v, o.k, MatExpect(e, o.k), 20, DetTolF(MA(e)))
    [] e.op = "inverse" -> AllNearT(o.v, o.k, MatExpect(e, o.k), 20, InvTolF(MA(e)))
    [] e.op = "lu" -> AllNearT(o.v, o.k, MatExpect(e, o.k), 200, Limit)
    [] e.op = "lusolve" -> IF o.k = "f" THEN (e.which = 1 => Solved(e, o)) ELSE AllNearT(o.v, o.k, MatExpect(e, o.k), 200, Limit)
    [] OTHER -> AllNear(o.v, o.k, MatExpect(e, o.k))
=============================================================================
