------------------------------- MODULE CmlElem ------------------------------
(* Element-wise algebra of vectors and matrices (a matrix is given as its   *)
(* elements in row order, so one definition serves both).                   *)
EXTENDS CmlNum

Zip(f(_, _), a, b) == [j \in 1..Len(a) |-> f(a[j], b[j])]
EMin(x, y) == IF y < x THEN y ELSE x
EMax(x, y) == IF x < y THEN y ELSE x

(* a/den + b/den etc. *)
EAdd(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
ESub(a, b) == [j \in 1..Len(a) |-> a[j] - b[j]]
EMul(a, b) == [j \in 1..Len(a) |-> a[j] * b[j]]
EScale(a, s) == [j \in 1..Len(a) |-> a[j] * s]
ENeg(a) == [j \in 1..Len(a) |-> -a[j]]
EFill(a, s) == [j \in 1..Len(a) |-> s]
ECard(a, n) == [j \in 1..Len(a) |-> IF j = n + 1 THEN 1 ELSE 0]
ERotate(a) == Tail(a) \o <<Head(a)>>
EPut(a, n, x) == [j \in 1..Len(a) |-> IF j = n + 1 THEN x ELSE a[j]]

Over(a, d) == [j \in 1..Len(a) |-> Rat(a[j], d)]
(* An element of integer type keeps only the whole part of a quotient. *)
Whole(p, q, k) == IF k = "i" THEN I(TDiv(p, q)) ELSE Rat(p, q)
EDiv(a, s, k, d) == [j \in 1..Len(a) |-> Whole(a[j], d * s, k)]
EQuot(a, p, q, d, k) == [j \in 1..Len(a) |-> Whole(a[j] * q, d * p, k)]
(* Results stored back in place, of the kind of the object. *)
InObject(a, d, k) == [j \in 1..Len(a) |-> Whole(a[j], d, k)]

EInPlace(e) == CASE e.which = 0 -> EAdd(e.a, e.b)
                 [] e.which = 1 -> ESub(e.a, e.b)
                 [] e.which = 2 -> Zip(EMin, e.a, e.b)
                 [] e.which = 3 -> Zip(EMax, e.a, e.b)
                 [] e.which = 4 -> e.b

ElemOps == {"vadd", "vsub", "vhad", "vneg", "vmuls", "vdivs", "vpm", "vin",
            "madd", "msub", "mhad", "mneg", "mmuls", "mdivs", "mpm", "min"}

ElemExpect(e, k) ==
  CASE e.op \in {"vadd", "madd"} -> Over(EAdd(e.a, e.b), e.den)
    [] e.op \in {"vsub", "msub"} -> Over(ESub(e.a, e.b), e.den)
    [] e.op \in {"vhad", "mhad"} -> Over(EMul(e.a, e.b), e.den * e.den)
    [] e.op = "vneg" -> Over(ENeg(e.a), e.den) 
    [] e.op = "mneg" -> Over(ENeg(e.a), e.den)
    \* the scalar is e.s / e.sd
    [] e.op \in {"vmuls", "mmuls"} -> Over(EScale(e.a, e.s), e.den * e.sd)
    [] e.op \in {"vdivs", "mdivs"} -> EQuot(e.a, e.s, e.sd, e.den, k)
    [] e.op \in {"vpm", "mpm"} -> InObject(EInPlace(e), e.den, k) \o Over(e.b, e.den)
    [] e.op \in {"vin", "min"} ->
         (CASE e.which = 0 -> InObject(EScale(e.a, e.s), e.den * e.sd, k)
            [] e.which = 1 -> EQuot(e.a, e.s, e.sd, e.den, k)
            [] e.which = 2 -> Over(EFill(e.a, e.s), 1)
            [] e.which = 3 -> Over(EFill(e.a, 0), 1)
            [] e.which = 4 -> Over(ECard(e.a, e.s), 1)
            [] e.which \in {5, 6, 7} -> [Over(e.a, e.den) EXCEPT ![e.s + 1] = I(e.e)]
            \* the scalar or the operands are elements of the object itself
            [] e.which = 8 -> Over(EScale(e.a, e.a[e.s + 1]), e.den * e.den)
            [] e.which = 9 -> EDiv(e.a, e.a[e.s + 1], k, 1)
            [] e.which = 10 -> Over(EScale(e.a, 2), e.den)
            [] e.which = 11 -> Over(EFill(e.a, 0), 1)
            [] e.which = 12 -> Over(ERotate(e.a), e.den))
=============================================================================
