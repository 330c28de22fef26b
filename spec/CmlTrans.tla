------------------------------ MODULE CmlTrans ------------------------------
(* Affine and linear transforms in the column convention (row-basis         *)
(* matrices are logged transposed): an n x k matrix maps the point p to     *)
(* M (p, 1), translation in the last column.                                *)
EXTENDS CmlRot

\* shape of a logged matrix
Dims(len) == CASE len = 16 -> <<4, 4>> [] len = 12 -> <<3, 4>> [] len = 9 -> <<3, 3>> [] len = 6 -> <<2, 3>> [] len = 4 -> <<2, 2>> [] OTHER -> <<0, 0>>
RB(d, f(_, _)) == [x \in 1..(d[1] * d[2]) |-> f(((x - 1) \div d[2]) + 1, ((x - 1) % d[2]) + 1)]
Delta(i, j) == IF i = j THEN R1 ELSE R0
\* element of the call's prefilled 4 x 4 list, of its 4 x 4 matrix m
Pre4(e, i, j) == I(e.a[(i - 1) * 4 + j])
Lin(e, i, j) == Norm(e.l[(i - 1) * 3 + j], e.den)
El(e, j) == Norm(e.b[j], e.den)

PartOps == {"tset", "tmake", "scale", "bset", "bsets", "skew", "linear", "affine", "affine2", "look"}
ReadOps == {"tvi", "tget", "bget", "tvec", "tpt", "tvec4", "tpt4", "chain"}
TransOps == PartOps \cup ReadOps \cup {"concat", "rtinv"}

\* a transform that consists of a linear part f and a translation t
AffEl(i, j, f(_, _), t(_)) == IF i <= 3 /\ j <= 3 THEN f(i, j) ELSE IF i <= 3 /\ j = 4 THEN t(i) ELSE Delta(i, j)
SkewEl(u, i, j) == IF i <= 3 /\ j <= 3 THEN CrossEl(u, i, j) ELSE R0
\* viewing: x, y, z axes of the camera are the columns of the rotation q/den
LookR(e) == RotQ(e.q, e.den)
LookZ(e) == [i \in 1..3 |-> LookR(e)[(i - 1) * 3 + 3]]

PartEl(e, d, i, j) ==
  CASE e.op = "tset" -> IF j = e.dim + 1 /\ i <= e.dim THEN (IF i <= Len(e.b) THEN El(e, i) ELSE R0) ELSE Pre4(e, i, j)
    [] e.op = "tmake" -> IF j = e.dim + 1 /\ i <= e.dim THEN (IF i <= Len(e.b) THEN El(e, i) ELSE R0) ELSE Delta(i, j)
    [] e.op = "scale" -> IF i = j /\ i <= e.dim THEN (IF e.inv = 1 THEN Norm(e.den, e.b[i]) ELSE El(e, i)) ELSE Delta(i, j)
    [] e.op = "bset" -> IF e.tr = 0 THEN (IF j = e.i + 1 /\ i <= e.dim THEN El(e, i) ELSE Pre4(e, i, j))
                        ELSE (IF i = e.i + 1 /\ j <= e.dim THEN El(e, j) ELSE Pre4(e, i, j))
    [] e.op = "bsets" -> LET p == IF e.tr = 0 THEN j ELSE i  q == IF e.tr = 0 THEN i ELSE j IN
                         IF p <= e.dim /\ q <= e.dim THEN I((CASE p = 1 -> e.x [] p = 2 -> e.y [] OTHER -> e.z)[q]) ELSE Pre4(e, i, j)
    [] e.op = "skew" -> IF e.dim = 3 THEN SkewEl([p \in 1..3 |-> El(e, p)], i, j)
                        ELSE (CASE i = 2 /\ j = 1 -> El(e, 1) [] i = 1 /\ j = 2 -> RNeg(El(e, 1)) [] OTHER -> R0)
    [] e.op = "linear" -> IF i <= 3 /\ j <= 3 THEN Lin(e, i, j) ELSE Delta(i, j)
    [] e.op = "affine2" -> AffEl(i, j, LAMBDA p, q : Lin(e, p, q), LAMBDA p : I(e.t[p]))
    [] e.op = "affine" -> LET R == RotAxis(UAxis(e), Cos2(e.ca, e.sa, e.da), Sin2(e.ca, e.sa, e.da))
                          IN AffEl(i, j, LAMBDA p, q : R[(p - 1) * 3 + q], LAMBDA p : I(e.t[p]))
    \* seen from the eye, the camera's axes are the coordinate axes and the eye is the origin
    [] e.op = "look" -> LET R == LookR(e)
                        IN AffEl(i, j, LAMBDA p, q : R[(q - 1) * 3 + p],
                                       LAMBDA p : RNeg(RSumSeq([k \in 1..3 |-> RMul(R[(k - 1) * 3 + p], I(e.b[k]))])))
MV4(e, v, i) == RSumSeq([k \in 1..Len(v) |-> RMul(Pre4(e, i, k), v[k])])
Vin(e) == [j \in 1..Len(e.b) |-> El(e, j)]
HomW(e) == MV4(e, Append(Vin(e), R1), 4)
TransExpect(e) ==
  CASE e.op = "tget" -> [i \in 1..e.dim |-> Pre4(e, i, e.dim + 1)]
    [] e.op = "bget" -> [p \in 1..e.dim |-> IF e.tr = 0 THEN Pre4(e, p, e.i + 1) ELSE Pre4(e, e.i + 1, p)]
    [] e.op = "tvi" -> LET d == IF e.which <= 1 THEN 2 ELSE 3
                       IN [i \in 1..d |-> I(TDiv(SumSeq([k \in 1..d |-> e.a[(i - 1) * 4 + k] * e.b[k]]) + (IF e.which \in {1, 3} THEN e.a[(i - 1) * 4 + d + 1] ELSE 0), e.dm))]
    [] e.op = "tvec" -> [i \in 1..e.dim |-> MV4(e, Vin(e), i)]
    [] e.op = "tpt" -> [i \in 1..e.dim |-> RAdd(MV4(e, Vin(e), i), Pre4(e, i, e.dim + 1))]
    [] e.op = "tvec4" -> [i \in 1..4 |-> MV4(e, Vin(e), i)]
    [] e.op = "tpt4" -> [i \in 1..3 |-> RDiv(MV4(e, Append(Vin(e), R1), i), HomW(e))]
    \* first a, then m
    [] e.op = "chain" -> LET p == [i \in 1..3 |-> RAdd(MV4(e, Vin(e), i), Pre4(e, i, 4))]
                         IN [i \in 1..3 |-> RAdd(RSumSeq([k \in 1..3 |-> RMul(I(e.m[(i - 1) * 4 + k]), p[k])]), I(e.m[(i - 1) * 4 + 4]))]
    [] e.op = "concat" -> Over(MatMul(Mat(e.n, e.n, e.b), Mat(e.n, e.n, e.a)).m, e.den * e.den)
    [] e.op = "rtinv" -> << >>
\* inverse of (R, t) with R orthogonal: (R^T, -R^T t)
RTInvEl(e, i, j) == IF i <= e.n /\ j <= e.n THEN Norm(e.rot[(j - 1) * e.n + i], e.dr)
                    ELSE IF i <= e.n THEN Norm(-SumSeq([k \in 1..e.n |-> e.rot[(k - 1) * e.n + i] * e.t[k]]), e.dr)
                    ELSE Delta(i, j)
TransPre(e) ==
  CASE e.op = "tpt4" -> HomW(e)[1] # 0
    [] e.op = "affine" -> Pyth(e.ca, e.sa, e.da) /\ LenSq(e.b) = e.du * e.du
    [] e.op = "rtinv" -> LET A == Mat(e.n, e.n, e.rot) IN MatMul(A, Transpose(A)) = Build(e.n, e.n, LAMBDA i, j : IF i = j THEN e.dr * e.dr ELSE 0)
    [] e.op = "look" -> /\ QNorm(e.q) = e.den * e.den
                        \* the target lies along +z (left-handed) or -z, up in the half plane of +y
                        /\ LET R == LookR(e)
                               d == [i \in 1..3 |-> e.t[i] - e.b[i]]
                               In(v, n) == RSumSeq([k \in 1..3 |-> RMul(R[(k - 1) * 3 + n], I(v[k]))])
                           IN /\ In(d, 1)[1] = 0 /\ In(d, 2)[1] = 0 /\ Sgn(In(d, 3)[1]) = (IF e.hand = 1 THEN 1 ELSE -1)
                              /\ In(e.u, 1)[1] = 0 /\ In(e.u, 2)[1] > 0
    [] OTHER -> TRUE
TransAccept(e, o) ==
  CASE e.op \in PartOps -> LET d == Dims(Len(o.v)) IN d[1] > 0 /\ AllNearT(o.v, o.k, RB(d, LAMBDA i, j : PartEl(e, d, i, j)), 10, 200)
    [] e.op = "rtinv" -> LET n == e.n  k == Len(o.v) \div (n + 1) IN
                         /\ Len(o.v) \in {n * (n + 1), (n + 1) * (n + 1)}
                         /\ AllNearT(o.v, o.k, RB(<<k, n + 1>>, LAMBDA i, j : RTInvEl(e, i, j)), 10, 200)
    [] e.op = "tpt4" -> AllNearT(o.v, o.k, TransExpect(e), 10, 1000)
    [] OTHER -> AllNearT(o.v, o.k, TransExpect(e), 10, 100)
=============================================================================
