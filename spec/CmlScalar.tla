----------------------------- MODULE CmlScalar ------------------------------
(* Scalar helpers, by their defining relations.  A call's real arguments    *)
(* are a/den.                                                               *)
EXTENDS CmlCoord

ScalarOps == {"ssign", "sclamp", "swrap", "sinrange", "smap", "sacos", "sasin", "ssqrt", "spow", "sdeg", "srad", "slen",
              "sord", "scyc", "sorder", "sorder2", "seuler", "sbest", "sconst", "sconsti", "strait", "straiti"}
SA(e, j) == Norm(e.a[j], e.den)
ClampI(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Mod(x, m) == x - m * (x \div m)
AxisCode(t) == CHOOSE o \in {0, 2, 4, 6, 8, 10} : AxisOrder(o) = t
OddOrder(o) == IF o \in {2, 6, 10} THEN 1 ELSE 0
Third(i, j) == 6 - i - j
ScalarPre(e) == CASE e.op \in {"sclamp", "sinrange"} -> e.a[2] <= e.a[3]
                  [] e.op = "sord" -> Len(e.a) = 3 /\ e.a[2] <= e.a[3] /\ \A j \in 1..3 : e.a[j] \in -7..7
                  [] e.op = "swrap" -> e.a[2] < e.a[3]
                  [] e.op = "strait" -> e.ca * e.ca + e.sa * e.sa = e.da * e.da /\ e.p > 0 /\ e.q > 0 /\ IsSquare(e.p * e.p + e.q * e.q)
                  [] e.op = "straiti" -> e.y # 0 /\ e.x \in -4..4 /\ e.y \in -4..4
                  [] e.op = "smap" -> e.a[2] # e.a[3]
                  [] e.op \in {"sacos", "sasin"} -> Abs(e.a[1]) >= e.den \/ IsSquare(e.den * e.den - e.a[1] * e.a[1])
                  [] e.op = "ssqrt" -> e.a[1] <= 0 \/ (IsSquare(e.a[1]) /\ IsSquare(e.den))
                  [] e.op = "slen" -> IsLen(e.a)
                  [] OTHER -> TRUE
\* whole part of the angle of the point (x, y), measured from the first axis of y
ATan2I(s, c) == LET m == IF s = 0 THEN (IF c > 0 THEN 0 ELSE 3)
                         ELSE IF c > 0 THEN (IF 1000 * Abs(s) >= 1557 * c THEN 1 ELSE 0)
                         \* past the quarter turn: 2 = atan of -2.185, 3 = atan of -0.1425
                         ELSE IF c = 0 THEN 1 ELSE IF 1000 * Abs(s) <= 142 * (-c) THEN 3 ELSE IF 1000 * Abs(s) <= 2185 * (-c) THEN 2 ELSE 1
                IN IF s < 0 THEN -m ELSE m
\* 104348/33215 is pi to 3*10^-10
ScalarExpect(e) ==
  CASE e.op = "ssign" -> <<I(Sgn(e.a[1]))>>
    [] e.op = "sclamp" -> <<Rat(ClampI(e.a[1], e.a[2], e.a[3]), e.den)>>
    [] e.op = "sinrange" -> <<I(IF e.a[2] <= e.a[1] /\ e.a[1] <= e.a[3] THEN 1 ELSE 0)>>
    [] e.op = "smap" -> <<RAdd(SA(e, 4), RMul(Norm(e.a[1] - e.a[2], e.a[3] - e.a[2]), Norm(e.a[5] - e.a[4], e.den)))>>
    [] e.op = "sacos" -> LET x == ClampI(e.a[1], -e.den, e.den) IN <<Norm(x, e.den), Norm(Isqrt(e.den * e.den - x * x), e.den)>>
    [] e.op = "sasin" -> LET x == ClampI(e.a[1], -e.den, e.den) IN <<Norm(Isqrt(e.den * e.den - x * x), e.den), Norm(x, e.den)>>
    \* the safe root, and the reciprocal root where there is one
    [] e.op = "ssqrt" -> IF e.a[1] <= 0 THEN <<I(0)>> ELSE <<Norm(Isqrt(e.a[1]), Isqrt(e.den)), Norm(Isqrt(e.den), Isqrt(e.a[1]))>>
    [] e.op = "spow" -> <<Norm(e.a[1] * e.a[1], e.den * e.den), Norm(e.a[1] * e.a[1] * e.a[1], e.den * e.den * e.den)>>
    [] e.op = "srad" -> <<<<e.a[1] * 104348, 33215 * 180 * e.den>>, SA(e, 1)>>
    [] e.op = "sdeg" -> <<<<e.a[1] * 33215 * 180, 104348 * e.den>>, SA(e, 1)>>
    [] e.op = "slen" -> <<Rat(LenSq(e.a), e.den * e.den), Rat(Length(e.a), e.den)>>
    \* next, previous, cyclic permutation of n from i
    [] e.op = "scyc" -> <<I((e.i + 1) % e.n), I((e.i + e.n - 1) % e.n)>> \o (IF e.n \in 2..4 THEN [j \in 1..e.n |-> I((e.i + j - 1) % e.n)] ELSE << >>)
    \* unpacked, packed, swapped
    [] e.op = "sorder" -> LET t == AxisOrder(e.order) IN
                          <<I(t[1] - 1), I(t[2] - 1), I(t[3] - 1), I(OddOrder(e.order)), I(e.order), I(AxisCode(<<t[2], t[1], t[3]>>))>>
    [] e.op = "sorder2" -> LET t == AxisOrder(e.order) IN <<I(t[1] - 1), I(t[2] - 1), I(OddOrder(e.order))>>
    [] e.op = "seuler" -> LET t == EulerAxes[e.order + 1] IN
                          <<I(t[1] - 1), I(t[2] - 1), I(Third(t[1], t[2]) - 1), I(IF (t[1] % 3) + 1 = t[2] THEN 0 ELSE 1), I(IF t[1] = t[3] THEN 1 ELSE 0)>>
    \* sine and cosine of a few integers, of the inverse functions, towards zero
    [] e.op = "straiti" ->
         LET n == e.x + 5  a == Abs(e.x)
         IN <<I(a), I(e.x - e.y * TDiv(e.x, e.y)),
              I(0), I(IF a = 0 THEN 1 ELSE 0), I(<<-1, 0, 2, -1, 0, 1, -2, 0, 1>>[n]),
              I(IF a < 2 THEN 0 ELSE Sgn(e.x)), I(ATan2I(e.x, e.y)), I(<<0, 0, 0, 0, 1, 2, 7, 20, 54>>[n]), I(a), I(0)>>
            \o (IF e.x > 0 THEN <<I(IF e.x >= 3 THEN 1 ELSE 0), I(Isqrt(e.x))>> ELSE << >>)
            \o (IF a <= 1 THEN <<I(e.x), I(IF e.x = 1 THEN 0 ELSE IF e.x = 0 THEN 1 ELSE 3)>> ELSE << >>)
    [] e.op = "strait" ->
         LET c == Norm(e.ca, e.da)  s == Norm(e.sa, e.da)
         IN <<c, s, c, s, c, RAbs(s), RAbs(c), s, Norm(e.p, Isqrt(e.p * e.p + e.q * e.q)), Norm(e.p, e.q), I(e.p % e.q), I(e.p), Norm(e.p, e.q), R1, Norm(e.q, 64), R1>>
            \o (IF e.ca # 0 THEN <<RDiv(s, c)>> ELSE << >>)
\* decimals of the constants: millionths and the next six digits
Const(n) == CASE n = 0 -> <<3141592, 653590>> [] n = 1 -> <<6283185, 307180>> [] n = 2 -> <<318309, 886184>> [] n = 3 -> <<159154, 943092>>
              [] n = 4 -> <<1570796, 326795>> [] n = 5 -> <<785398, 163397>> [] n = 6 -> <<2718281, 828459>> [] n = 7 -> <<57295779, 513082>>
              [] n = 8 -> <<17453, 292520>> [] n = 9 -> <<1414213, 562373>> [] n = 10 -> <<1732050, 807569>> [] n = 11 -> <<2236067, 977500>> [] n = 12 -> <<2449489, 742783>>
Best(e, v) ==
  LET ab == [j \in 1..Len(e.a) |-> Abs(e.a[j])]
      Max(s, n) == n \in 0..(Len(s) - 1) /\ \A j \in 1..Len(s) : s[j] <= s[n + 1]
      Min(s, n) == n \in 0..(Len(s) - 1) /\ \A j \in 1..Len(s) : s[j] >= s[n + 1]
  IN Len(v) = 4 /\ Max(e.a, v[1][1]) /\ Max(ab, v[2][1]) /\ Min(e.a, v[3][1]) /\ Min(ab, v[4][1])
ScalarAccept(e, o) ==
  CASE e.op = "sbest" -> Best(e, o.v)
    \* ranks for values: clamping, range test, sign, extremes, safe root of what is not positive
    [] e.op = "sord" -> LET x == e.a[1] IN
         /\ Len(o.v) = IF o.k = "i" \/ x > 0 THEN 7 ELSE 8
         /\ SubSeq(o.v, 1, 3) = [j \in 1..3 |-> <<CASE j = 1 -> ClampI(x, e.a[2], e.a[3]) [] j = 2 -> (IF e.a[2] <= x /\ x <= e.a[3] THEN 1 ELSE 0) [] j = 3 -> Sgn(x), 0>>]
         /\ Best(e, SubSeq(o.v, 4, 7)) /\ (Len(o.v) = 8 => o.v[8] = <<0, 0>>)
    [] e.op = "sconst" -> Len(o.v) = 13 /\ \A n \in 1..13 : Close(o.v[n], Const(n - 1), IF o.k = "f" THEN Million \div 2 + 4 * (Const(n - 1)[1] \div 50) ELSE 8)
    [] e.op = "sconsti" -> AllNear(o.v, o.k, [j \in 1..3 |-> I(1)])
    \* the representative within the interval; either end stands for both
    [] e.op = "swrap" -> LET x == Rat(e.a[2] + Mod(e.a[1] - e.a[2], e.a[3] - e.a[2]), e.den) IN
                         AllNear(o.v, o.k, <<x>>) \/ (REq(x, SA(e, 2)) /\ AllNear(o.v, o.k, <<SA(e, 3)>>))
    [] e.op \in {"sacos", "sasin"} -> /\ Len(o.v) = 3 /\ AllNearT(SubSeq(o.v, 1, 2), o.k, ScalarExpect(e), 5, 60)
                                      /\ IF e.op = "sacos" THEN InArc(o.v[3], 0, Pi6) ELSE InArc(o.v[3], -(Pi6 \div 2), Pi6 \div 2)
    \* these are stated with a rational close to pi
    [] e.op \in {"sdeg", "srad"} -> AllNearT(o.v, o.k, ScalarExpect(e), 1000, 0)
    [] OTHER -> AllNear(o.v, o.k, ScalarExpect(e))
=============================================================================
