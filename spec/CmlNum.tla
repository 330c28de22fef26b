------------------------------- MODULE CmlNum -------------------------------
(* Numbers of the specification.                                            *)
(* An expected value is an exact rational <<p, q>> with q > 0.  An observed *)
(* value is what the implementation produced, logged as <<hi, lo>>:         *)
(* hi = floor(value), lo = the fraction in millionths.  Values that are not *)
(* finite are logged with |hi| >= 2*10^9, out of reach of every rational    *)
(* used here.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

Million == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

(* Integer division of C++: towards zero. *)
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))

Rat(p, q) == IF q < 0 THEN <<-p, -q>> ELSE <<p, q>>
Norm(p, q) == LET g == Gcd(p, q) IN IF g = 0 THEN <<p, q>> ELSE Rat(p \div g, q \div g)
I(p) == <<p, 1>>
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Norm(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == LET g == Gcd(x[1], y[2])  h == Gcd(y[1], x[2])
                  g1 == IF g = 0 THEN 1 ELSE g   h1 == IF h = 0 THEN 1 ELSE h
              IN <<(x[1] \div g1) * (y[1] \div h1), (x[2] \div h1) * (y[2] \div g1)>>
RInv(x) == Rat(x[2], x[1])
RDiv(x, y) == RMul(x, RInv(y))
RLt(x, y) == x[1] * y[2] < y[1] * x[2]
REq(x, y) == x[1] * y[2] = y[1] * x[2]
RAbs(x) == <<Abs(x[1]), x[2]>>

(* Fixed point: p/q (q > 0, q < 2*10^8) as <<hi, lo>>, truncated downwards. *)
RECURSIVE Digits(_, _, _, _)
Digits(r, q, n, acc) == IF n = 0 THEN acc
                        ELSE Digits((r * 10) % q, q, n - 1, acc * 10 + (r * 10) \div q)
Fix(p, q) == <<p \div q,
               LET r == p % q IN IF q <= 2147 THEN (r * Million) \div q
                                 ELSE IF q <= 2147000 THEN ((r * 1000) \div q) * 1000 + (((r * 1000) % q) * 1000) \div q
                                 ELSE Digits(r, q, 6, 0)>>

\* and the next three digits
Fix3(p, q) == LET r == p % q IN
              IF q <= 2147 THEN (((r * Million) % q) * 1000) \div q
              ELSE IF q <= 2147000 THEN (((((r * 1000) % q) * 1000) % q) * 1000) \div q
              ELSE Digits(r, q, 9, 0) % 1000

Finite(o) == o[1] < 1900000000 /\ o[1] > -1900000000

(* |o - x| <= tol millionths, o and x both fixed point. *)
Close(o, x, tol) == /\ o[1] <= x[1] + 1000
                    /\ o[1] >= x[1] - 1000
                    /\ Abs((o[1] - x[1]) * Million + o[2] - x[2]) <= tol

(* Rounding allowance, by the element type that computed the value: exact   *)
(* for integers, a few units of the last logged digit for double, and a     *)
(* relative 2e-6 for float.                                                 *)
Tol(k, x) == CASE k = "i" -> 0
               [] k = "d" -> 3
               [] k = "l" -> 3
               [] k = "f" -> 60 + 3 * Min2(Abs(x[1]), 100000)
               [] OTHER -> 0

\* doubles are compared to the billionth, and to 10^-12 of their size
NanoTol(x) == 10 + Abs(x[1]) \div 1000
CloseNano(o, r, extra) == LET x == Fix(r[1], r[2])  t == NanoTol(x) + extra
                          IN /\ Close(o, x, 3 + t \div 1000)
                             /\ Abs(((o[1] - x[1]) * Million + o[2] - x[2]) * 1000 + (IF Len(o) = 3 THEN o[3] ELSE 0) - Fix3(r[1], r[2])) <= t
FineKind(k) == k \in {"d", "l"}
Near(o, k, r) == IF FineKind(k) THEN CloseNano(o, r, 0) ELSE LET x == Fix(r[1], r[2]) IN Close(o, x, Tol(k, x))
(* With an extra allowance: td billionths for double, tf millionths for      *)
(* single precision.                                                        *)
NearT(o, k, r, td, tf) == IF FineKind(k) THEN CloseNano(o, r, td)
                          ELSE LET x == Fix(r[1], r[2]) IN Close(o, x, Tol(k, x) + (IF k = "f" THEN tf ELSE 0))

AllNear(v, k, rs) == Len(v) = Len(rs) /\ \A j \in 1..Len(rs) : Near(v[j], k, rs[j])
AllNearT(v, k, rs, td, tf) == Len(v) = Len(rs) /\ \A j \in 1..Len(rs) : NearT(v[j], k, rs[j], td, tf)

(* Millionths as one integer, for observed values with |value| < 2000. *)
Micro(o) == o[1] * Million + o[2]
Small(o) == o[1] < 2000 /\ o[1] > -2000
(* Product of two values given in millionths, |a|, |b| <= 2*10^6. *)
MMul(a, b) == LET a1 == Abs(a) \div 1000  a0 == Abs(a) % 1000  bb == Abs(b)
              IN Sgn(a) * Sgn(b) * ((a1 * bb) \div 1000 + (a0 * bb) \div Million)

SumSeq(s) == LET RECURSIVE F(_)
                 F(n) == IF n = 0 THEN 0 ELSE F(n - 1) + s[n]
             IN F(Len(s))
RSumSeq(s) == LET RECURSIVE F(_)
                  F(n) == IF n = 0 THEN <<0, 1>> ELSE RAdd(F(n - 1), s[n])
              IN F(Len(s))

RECURSIVE IsqrtFrom(_, _, _)
IsqrtFrom(n, lo, hi) == IF hi - lo <= 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2 IN
                             IF m * m <= n THEN IsqrtFrom(n, m, hi) ELSE IsqrtFrom(n, lo, m)
Isqrt(n) == IsqrtFrom(n, 0, 46341)
IsSquare(n) == n >= 0 /\ LET r == Isqrt(n) IN r * r = n
=============================================================================
