------------------------------- MODULE CmlRot -------------------------------
(* Rotations of the plane and of space, as matrices in the column           *)
(* convention (M v turns v by the right-hand rule); row-basis matrices are  *)
(* logged transposed.  Angles are given by rational cosine and sine, half   *)
(* angles where quaternions are involved.                                   *)
EXTENDS CmlQuat

\* rational matrices: sequences of rationals in row order, order n
RM(n, f(_, _)) == [x \in 1..(n * n) |-> f(((x - 1) \div n) + 1, ((x - 1) % n) + 1)]
RMulM(A, B, n) == RM(n, LAMBDA i, j : RSumSeq([k \in 1..n |-> RMul(A[(i - 1) * n + k], B[(k - 1) * n + j])]))
REmbed(A, n, m) == RM(m, LAMBDA i, j : IF i <= n /\ j <= n THEN A[(i - 1) * n + j] ELSE IF i = j THEN <<1, 1>> ELSE <<0, 1>>)
R0 == <<0, 1>>
R1 == <<1, 1>>

Rot2(c, s) == <<c, RNeg(s), s, c>>
\* about axis a (1, 2, 3): the plane of the next two axes, in cyclic order
RotW(a, c, s) == LET j == (a % 3) + 1  k == (j % 3) + 1 IN
                 RM(3, LAMBDA p, q : CASE p = a /\ q = a -> R1
                                       [] p = j /\ q = j -> c
                                       [] p = k /\ q = k -> c
                                       [] p = k /\ q = j -> s
                                       [] p = j /\ q = k -> RNeg(s)
                                       [] OTHER -> R0)
\* derivative of RotW by its angle
DRotW(a, c, s) == LET j == (a % 3) + 1  k == (j % 3) + 1 IN
                  RM(3, LAMBDA p, q : CASE p = j /\ q = j -> RNeg(s)
                                        [] p = k /\ q = k -> RNeg(s)
                                        [] p = k /\ q = j -> c
                                        [] p = j /\ q = k -> RNeg(c)
                                        [] OTHER -> R0)
\* sign of the (p,q) element of the cross-product matrix of axis u: [u]x v = u x v
CrossEl(u, p, q) == CASE p = 1 /\ q = 2 -> RNeg(u[3]) [] p = 2 /\ q = 1 -> u[3]
                      [] p = 1 /\ q = 3 -> u[2]       [] p = 3 /\ q = 1 -> RNeg(u[2])
                      [] p = 2 /\ q = 3 -> RNeg(u[1]) [] p = 3 /\ q = 2 -> u[1]
                      [] OTHER -> R0
RotAxis(u, c, s) == RM(3, LAMBDA p, q : RAdd(RAdd(IF p = q THEN c ELSE R0, RMul(RSub(R1, c), RMul(u[p], u[q]))), RMul(s, CrossEl(u, p, q))))
\* rotation of the unit quaternion a/den, by turning the unit vectors: q e q*
RotQ(a, den) == LET T(k) == QMul(QMul(a, [j \in 1..4 |-> IF j = k + 1 THEN 1 ELSE 0]), QConj(a))
                IN RM(3, LAMBDA p, q : Rat(T(q)[p + 1], den * den))

\* the twelve Euler orders; the first listed axis is applied first
EulerAxes == << <<1,2,3>>, <<1,2,1>>, <<1,3,2>>, <<1,3,1>>, <<2,3,1>>, <<2,3,2>>, <<2,1,3>>, <<2,1,2>>, <<3,1,2>>, <<3,1,3>>, <<3,2,1>>, <<3,2,3>> >>
Euler(axes, c, s) == RMulM(RotW(axes[3], c[3], s[3]), RMulM(RotW(axes[2], c[2], s[2]), RotW(axes[1], c[1], s[1]), 3), 3)
DEuler(axes, c, s, a) == LET W(n) == IF n = a THEN DRotW(axes[n], c[n], s[n]) ELSE RotW(axes[n], c[n], s[n])
                         IN RMulM(W(3), RMulM(W(2), W(1), 3), 3)
\* full-angle cosine and sine from the half angle (ca, sa)/da
Cos2(ca, sa, da) == Norm(ca * ca - sa * sa, da * da)
Sin2(ca, sa, da) == Norm(2 * ca * sa, da * da)
ECos(e) == [j \in 1..3 |-> Cos2(e.ca[j], e.sa[j], e.da[j])]
ESin(e) == [j \in 1..3 |-> Sin2(e.ca[j], e.sa[j], e.da[j])]
UAxis(e) == [j \in 1..3 |-> Norm(e.b[j], e.du)]
WQuat(a, c, s) == <<c>> \o [j \in 1..3 |-> IF j = a THEN s ELSE R0]
QMulR(p, q) == LET M(i, j) == RMul(p[i], q[j]) IN
  << RSub(RSub(RSub(M(1,1), M(2,2)), M(3,3)), M(4,4)),
     RSub(RAdd(RAdd(M(1,2), M(2,1)), M(3,4)), M(4,3)),
     RAdd(RAdd(RSub(M(1,3), M(2,4)), M(3,1)), M(4,2)),
     RAdd(RSub(RAdd(M(1,4), M(2,3)), M(3,2)), M(4,1)) >>
EulerQ(e) == LET ax == EulerAxes[e.order + 1]
                 Q(n) == WQuat(ax[n], Norm(e.ca[n], e.da[n]), Norm(e.sa[n], e.da[n]))
             IN QMulR(Q(3), QMulR(Q(2), Q(1)))

BuildOps == {"rot2", "rotw", "rotaa", "rote", "roted", "rotq", "qrotw", "qrotaa", "qrote", "qrotm", "turn"}
RecoverOps == {"toaa", "qtoaa", "toeul", "qtoeul", "tinyaa", "tinyeul"}
RotOps == BuildOps \cup RecoverOps
IsRot3(A) == \A i \in 1..3 : \A j \in 1..3 : REq(RSumSeq([k \in 1..3 |-> RMul(A[(i - 1) * 3 + k], A[(j - 1) * 3 + k])]), IF i = j THEN R1 ELSE R0)
Pyth(c, s, d) == c * c + s * s = d * d
RotPre(e) == CASE e.op \in {"rot2", "rotw", "qrotw"} -> Pyth(e.ca, e.sa, e.da)
               [] e.op \in {"rotaa", "qrotaa"} -> Pyth(e.ca, e.sa, e.da) /\ LenSq(e.b) = e.du * e.du
               [] e.op \in {"rote", "roted", "qrote"} -> \A j \in 1..3 : Pyth(e.ca[j], e.sa[j], e.da[j])
               [] e.op \in {"rotq", "turn", "qtoaa", "qtoeul"} -> QNorm(e.a) = e.den * e.den
               [] e.op = "tinyaa" -> LenSq(e.b) = e.du * e.du /\ e.tp > 0
               [] e.op = "tinyeul" -> e.order \in 0..11 /\ e.order % 2 = 0
               [] e.op \in {"qrotm", "toaa", "toeul"} -> IsRot3(Over(e.a, e.den)) /\ Det(Mat(3, 3, e.a)) > 0

\* n: order of the logged matrix
RotExpect(e, n) ==
  CASE e.op = "rot2" -> REmbed(Rot2(Norm(e.ca, e.da), Norm(e.sa, e.da)), 2, n)
    [] e.op = "rotw" -> REmbed(RotW(e.axis + 1, Norm(e.ca, e.da), Norm(e.sa, e.da)), 3, n)
    [] e.op = "rotaa" -> REmbed(RotAxis(UAxis(e), Cos2(e.ca, e.sa, e.da), Sin2(e.ca, e.sa, e.da)), 3, n)
    [] e.op = "rote" -> REmbed(Euler(EulerAxes[e.order + 1], ECos(e), ESin(e)), 3, n)
    [] e.op = "roted" -> DEuler(EulerAxes[e.order + 1], ECos(e), ESin(e), e.axis + 1)
    [] e.op = "rotq" -> REmbed(RotQ(e.a, e.den), 3, n)
    [] e.op = "qrotw" -> WQuat(e.axis + 1, Norm(e.ca, e.da), Norm(e.sa, e.da))
    [] e.op = "qrotaa" -> <<Norm(e.ca, e.da)>> \o [j \in 1..3 |-> RMul(Norm(e.sa, e.da), Norm(e.b[j], e.du))]
    [] e.op = "qrote" -> EulerQ(e)
    [] e.op = "turn" -> LET R == RotQ(e.a, e.den) IN [i \in 1..3 |-> RSumSeq([k \in 1..3 |-> RMul(R[(i - 1) * 3 + k], Norm(e.b[k], e.du))])]
\* two unit quaternions that differ in sign are the same rotation
SameQ(v, k, q, td, tf) == AllNearT(v, k, q, td, tf) \/ AllNearT(v, k, [j \in 1..4 |-> RNeg(q[j])], td, tf)

-----------------------------------------------------------------------------
(* Recovered rotations: observed numbers are millionths, |x| <= 2*10^6.     *)
MM(A, B) == [x \in 1..9 |-> LET i == ((x - 1) \div 3) + 1  j == ((x - 1) % 3) + 1 IN
                            MMul(A[(i - 1) * 3 + 1], B[j]) + MMul(A[(i - 1) * 3 + 2], B[3 + j]) + MMul(A[(i - 1) * 3 + 3], B[6 + j])]
MRotW(a, c, s) == LET j == (a % 3) + 1  k == (j % 3) + 1 IN
                  [x \in 1..9 |-> LET p == ((x - 1) \div 3) + 1  q == ((x - 1) % 3) + 1 IN
                      CASE p = a /\ q = a -> Million [] p = j /\ q = j -> c [] p = k /\ q = k -> c
                        [] p = k /\ q = j -> s [] p = j /\ q = k -> -s [] OTHER -> 0]
MRotAxis(u, c, s) == [x \in 1..9 |-> LET p == ((x - 1) \div 3) + 1  q == ((x - 1) % 3) + 1
                                         cr == CASE x = 2 -> -u[3] [] x = 4 -> u[3] [] x = 3 -> u[2] [] x = 7 -> -u[2] [] x = 6 -> -u[1] [] x = 8 -> u[1] [] OTHER -> 0
                                     IN (IF p = q THEN c ELSE 0) + MMul(Million - c, MMul(u[p], u[q])) + MMul(s, cr)]
InMicro(v) == \A j \in 1..Len(v) : v[j][1] >= -8 /\ v[j][1] <= 8
RFix(r) == LET x == Fix(r[1], r[2]) IN x[1] * Million + x[2]
RecTol(k) == IF k = "f" THEN 500 ELSE 40
Matches(M, A, tol) == \A j \in 1..9 : Abs(M[j] - RFix(A[j])) <= tol
\* The rotation given to a recovery is a/den, turned further by the small angle
\* +-10^-p about axis pa (first order; the second order is within BendTol).
Ten(p) == IF p = 2 THEN 100 ELSE IF p = 3 THEN 1000 ELSE IF p = 4 THEN 10000 ELSE 100000
Bent(R, e) == IF e.p = 0 \/ Abs(e.p) > 5 THEN R
              ELSE LET t == <<Sgn(e.p), Ten(Abs(e.p))>>  j == ((e.pa + 1) % 3) + 1  k == ((e.pa + 2) % 3) + 1 IN
                   RM(3, LAMBDA r, q : CASE q = j -> RAdd(R[(r - 1) * 3 + j], RMul(t, R[(r - 1) * 3 + k]))
                                         [] q = k -> RSub(R[(r - 1) * 3 + k], RMul(t, R[(r - 1) * 3 + j]))
                                         [] OTHER -> R[(r - 1) * 3 + q])
\* 10^-3 is the tolerance given with float elements
BendTol(e, k) == IF Abs(e.p) = 2 THEN 60 ELSE IF k = "f" /\ e.op # "qrotm" /\ Abs(e.p) = 3 THEN 2100 ELSE 1
Target(e) == Bent(IF e.op \in {"toaa", "toeul", "qrotm"} THEN Over(e.a, e.den) ELSE RotQ(e.a, e.den), e)
AxisAngleOk(e, o) ==
  /\ Len(o.v) = 6 /\ InMicro(o.v)
  /\ LET v == [j \in 1..6 |-> Micro(o.v[j])]
         u == SubSeq(v, 1, 3)
         len2 == MMul(u[1], u[1]) + MMul(u[2], u[2]) + MMul(u[3], u[3])
         top == IF e.op = "toaa" THEN 3141593 ELSE 6283186
     IN /\ \A j \in 1..3 : Abs(u[j]) <= Million + 100
        /\ Matches(MRotAxis(u, v[4], v[5]), Target(e), RecTol(o.k) + BendTol(e, o.k))
        /\ v[6] >= -10 /\ v[6] <= top + 10
        \* a unit axis, or none with angle zero
        /\ Abs(len2 - Million) <= RecTol(o.k) \/ (u = <<0, 0, 0>> /\ v[6] = 0)
EulerOk(e, o) ==
  /\ Len(o.v) = 6 /\ InMicro(o.v)
  /\ LET v == [j \in 1..6 |-> Micro(o.v[j])]  ax == EulerAxes[e.order + 1]
         W(n) == MRotW(ax[n], v[2 * n - 1], v[2 * n])
     IN Matches(MM(W(3), MM(W(2), W(1))), Target(e), RecTol(o.k) + BendTol(e, o.k))

Order(v) == IF Len(v) = 4 THEN 2 ELSE IF Len(v) = 9 THEN 3 ELSE IF Len(v) = 16 THEN 4 ELSE 0
RotAccept(e, o) ==
  CASE e.op \in {"toaa", "qtoaa"} -> AxisAngleOk(e, o)
    [] e.op \in {"toeul", "qtoeul"} -> EulerOk(e, o)
    [] e.op \in {"qrotw", "qrotaa", "qrote"} -> SameQ(o.v, o.k, RotExpect(e, 0), 10, 60)
    \* the quaternion of a matrix: its rotation is the matrix
    [] e.op = "qrotm" -> /\ Len(o.v) = 4 /\ InMicro(o.v)
                         /\ LET q == [j \in 1..4 |-> Micro(o.v[j])]
                                P(i, j) == MMul(q[i], q[j])
                                R == << P(1,1) + P(2,2) - P(3,3) - P(4,4), 2 * (P(2,3) - P(1,4)), 2 * (P(2,4) + P(1,3)),
                                        2 * (P(2,3) + P(1,4)), P(1,1) - P(2,2) + P(3,3) - P(4,4), 2 * (P(3,4) - P(1,2)),
                                        2 * (P(2,4) - P(1,3)), 2 * (P(3,4) + P(1,2)), P(1,1) - P(2,2) - P(3,3) + P(4,4) >>
                            IN (\A j \in 1..4 : Abs(q[j]) <= Million + 100) /\ Matches(R, Target(e), RecTol(o.k) + BendTol(e, o.k))
    [] e.op \in {"roted", "turn"} -> AllNearT(o.v, o.k, RotExpect(e, 3), 10, 100)
    \* rotations by tiny angles, logged in units of 2^-8 or 2^-20, keep their relative precision
    [] e.op = "tinyaa" -> AllNearT(o.v, o.k, [j \in 1..3 |-> Norm(e.b[j], e.du)] \o <<Norm(e.tp, 16)>>, 100, 60)
    [] e.op = "tinyeul" -> AllNearT(o.v, o.k, [j \in 1..3 |-> Norm(e.a[j], 16)], 100, 60)
    [] OTHER -> Order(o.v) > 0 /\ AllNearT(o.v, o.k, RotExpect(e, Order(o.v)), 10, 60)
=============================================================================
