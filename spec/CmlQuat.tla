------------------------------- MODULE CmlQuat ------------------------------
(* Quaternions as <<w, x, y, z>> over the integers (a call's real values    *)
(* are a/den); Hamilton's product, reversed in the negative convention.     *)
EXTENDS CmlMat

QMul(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                 p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                 p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                 p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
QProd(neg, p, q) == IF neg = 1 THEN QMul(q, p) ELSE QMul(p, q)
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>
QNorm(q) == Dot(q, q)
QOne == <<1, 0, 0, 0>>
QZero == <<0, 0, 0, 0>>

QuatOps == {"qadd", "qsub", "qmul", "qmul3", "qdot", "qscale", "qown", "qneg", "qconj", "qinv", "qnorm", "qlen",
            "qnormalize", "qparts", "qbuild", "qconst", "qexp", "qlog"}
\* sine and cosine of the call's angle, and its unit axis
QCos(e) == Norm(e.ca, e.da)
QSin(e) == Norm(e.sa, e.da)
QAxis(e, j) == Norm(e.b[j], e.du)
QR(e) == Norm(e.p, e.r)
\* the whole quaternion may be scaled by 2^k2 (and is logged without the scale); imaginary parts may be logged times 2^fm
FM(e) == IF "fm" \in DOMAIN e THEN e.fm ELSE 0
Fine(e) == <<2 ^ FM(e), 1>>
QuatPre(e) == CASE e.op \in {"qlen", "qnormalize"} -> IsSquare(QNorm(e.a))
                [] e.op = "qinv" -> QNorm(e.a) > 0
                [] e.op \in {"qexp", "qlog"} -> (IF FM(e) > 0 THEN e.sa > 0 /\ e.sa % 2 = 0 /\ 4 * e.da = e.sa * e.sa + 4 /\ e.ca = e.da - 2
                                                    ELSE e.ca * e.ca + e.sa * e.sa = e.da * e.da) /\ LenSq(e.b) = e.du * e.du
                [] OTHER -> TRUE
QuatExpect(e, k) ==
  CASE e.op = "qadd" -> Over(EAdd(e.a, e.b), e.den)
    [] e.op = "qsub" -> Over(ESub(e.a, e.b), e.den)
    [] e.op = "qmul" -> Over(QProd(e.neg, e.a, e.b), e.den * e.den)
    [] e.op = "qmul3" -> Over(QProd(e.neg, QProd(e.neg, e.a, e.b), e.c), e.den * e.den * e.den)
    [] e.op = "qdot" -> <<Rat(Dot(e.a, e.b), e.den * e.den)>>
    [] e.op = "qscale" -> IF e.which = 0 THEN Over(EScale(e.a, e.s), e.den) ELSE [j \in 1..4 |-> Rat(e.a[j], e.den * e.s)]
    \* scaled or divided in place by one of its own parts
    [] e.op = "qown" -> IF e.which = 0 THEN Over(EScale(e.a, e.a[e.s + 1]), e.den * e.den) ELSE EDiv(e.a, e.a[e.s + 1], k, 1)
    [] e.op = "qneg" -> Over(ENeg(e.a), e.den)
    [] e.op = "qconj" -> Over(QConj(e.a), e.den)
    [] e.op = "qinv" -> LET n == QNorm(e.a) IN [j \in 1..4 |-> Norm(QConj(e.a)[j] * e.den, n)]
    [] e.op = "qnorm" -> <<Rat(QNorm(e.a), e.den * e.den)>>
    [] e.op = "qlen" -> <<Rat(Length(e.a), e.den)>>
    [] e.op = "qnormalize" -> Over(e.a, Length(e.a))
    [] e.op \in {"qparts", "qbuild"} -> Over(e.a, e.den)
    [] e.op = "qconst" -> Over(IF e.which = 0 THEN QOne ELSE QZero, 1)
    [] e.op = "qexp" -> <<RMul(QR(e), QCos(e))>> \o [j \in 1..3 |-> RMul(QR(e), RMul(RMul(Fine(e), QSin(e)), QAxis(e, j)))]
    \* log: e^w, cos |v|, sin |v|, direction (reversed when the sine is negative)
    [] e.op = "qlog" -> IF k = "rt" THEN <<RMul(QR(e), QCos(e))>> \o [j \in 1..3 |-> RMul(QR(e), RMul(QSin(e), QAxis(e, j)))]
                        ELSE <<QR(e), QCos(e), RAbs(QSin(e))>> \o [j \in 1..3 |-> IF e.sa = 0 THEN <<0, 1>> ELSE IF e.sa < 0 THEN RNeg(QAxis(e, j)) ELSE QAxis(e, j)]
QuatAccept(e, o) ==
  CASE e.op = "qexp" -> AllNearT(o.v, o.k, QuatExpect(e, o.k), 10, 60 + 60 * Abs(e.k))
    \* a small angle lies between its sine s and s(1 + s^2/4)
    [] e.op = "qlog" /\ FM(e) > 0 ->
         /\ Len(o.v) = 3
         /\ \A j \in 1..3 : LET y == RMul(RMul(Fine(e), QSin(e)), QAxis(e, j))  z == Fix(Abs(y[1]), y[2])
                                 m == Micro(z)  w == Sgn(y[1]) * Micro(o.v[j])
                             IN Small(o.v[j]) /\ w >= m - 20 /\ w <= m + m \div ((e.sa \div 2) * (e.sa \div 2)) + 20
    [] e.op = "qlog" -> IF o.k = "rt" THEN AllNearT(o.v, "f", QuatExpect(e, "rt"), 0, 100)
                        ELSE /\ Len(o.v) = 7
                             /\ AllNearT(SubSeq(o.v, 1, 6), o.k, QuatExpect(e, o.k), 10, 700)
                             \* the angle lies in the half turn
                             /\ o.v[7][1] >= 0 /\ o.v[7][1] <= 3
                             /\ Micro(o.v[7]) <= 3142300
    [] OTHER -> AllNear(o.v, o.k, QuatExpect(e, o.k))
=============================================================================
