------------------------------- MODULE CmlVec -------------------------------
(* Vector products, lengths and projections over integer vectors; a call's  *)
(* real vectors are a/den.                                                  *)
EXTENDS CmlElem

Dot(a, b) == SumSeq(EMul(a, b))
LenSq(a) == Dot(a, a)
PerpDot(a, b) == a[1] * b[2] - a[2] * b[1]
Perp(a) == <<-a[2], a[1]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* Determinant of the matrix with columns a, b, c, by the permutation rule. *)
Triple(a, b, c) == a[1] * b[2] * c[3] + a[2] * b[3] * c[1] + a[3] * b[1] * c[2]
                 - a[3] * b[2] * c[1] - a[2] * b[1] * c[3] - a[1] * b[3] * c[2]
Outer(a, b) == [j \in 1..(Len(a) * Len(b)) |-> a[((j - 1) \div Len(b)) + 1] * b[((j - 1) % Len(b)) + 1]]
Drop(a, i) == [j \in 1..(Len(a) - 1) |-> IF j <= i THEN a[j] ELSE a[j + 1]]
Manhattan(a, b) == SumSeq([j \in 1..Len(a) |-> Abs(a[j] - b[j])])

(* Euclidean length, for vectors whose squared length is a perfect square. *)
IsLen(a) == IsSquare(LenSq(a))
Length(a) == Isqrt(LenSq(a))

VecOps == {"dot", "manhattan", "perp_dot", "cross", "triple", "outer", "lensq", "length", "normalize",
           "subvector", "perp", "projv", "projh"}
VecPre(e) == e.op \in {"length", "normalize"} => IsLen(e.a)
VecExpect(e, k) ==
  LET d == e.den IN
  CASE e.op = "dot" -> <<Rat(Dot(e.a, e.b), d * d)>>
    [] e.op = "manhattan" -> <<Rat(Manhattan(e.a, e.b), d)>>
    [] e.op = "perp_dot" -> <<Rat(PerpDot(e.a, e.b), d * d)>>
    [] e.op = "cross" -> Over(Cross(e.a, e.b), d * d)
    [] e.op = "triple" -> <<Rat(Triple(e.a, e.b, e.c), d * d * d)>>
    [] e.op = "outer" -> Over(Outer(e.a, e.b), d * d)
    [] e.op = "lensq" -> <<Rat(LenSq(e.a), d * d)>>
    [] e.op = "length" -> <<Rat(Length(e.a), d)>>
    [] e.op = "normalize" -> Over(e.a, Length(e.a))
    [] e.op = "subvector" -> Over(Drop(e.a, e.i), d)
    [] e.op = "perp" -> Over(Perp(e.a), d)
    [] e.op = "projv" -> LET t == Norm(Dot(e.a, e.b), LenSq(e.b)) IN [j \in 1..Len(e.a) |-> RMul(t, Norm(e.b[j], d))]
    [] e.op = "projh" -> LET t == Dot(e.a, e.b) IN [j \in 1..Len(e.a) |-> Rat(e.a[j] * d * d - t * e.b[j], d * d * d)]
=============================================================================
