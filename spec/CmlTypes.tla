------------------------------ MODULE CmlTypes ------------------------------
(* Static types of results.  Element types are numbered 1 unsigned char,    *)
(* 2 short, 3 int, 4 unsigned, 5 long, 6 float, 7 double, 8 long double.    *)
(* An owning vector type is <<element, storage, size>> with storage 0 fixed *)
(* (size > 0) or 1 dynamic (size -1); an owning matrix type is <<element,   *)
(* storage, rows, cols, basis, layout>>, basis 0 column 1 row 2 either,     *)
(* layout 0 row-major 1 column-major 2 either; a quaternion type is         *)
(* <<element, 0, order, cross>>.  An observation of kind k is the type of   *)
(* the object holding the result of operation k.                            *)
EXTENDS CmlScalar

TypeOps == {"tvv", "tv", "tmm", "tm", "tmv", "tqq", "talias"}

(* The language's common type: the same type; else the wider floating type; *)
(* else the wider integer type, at least int.                               *)
Common(a, b) == IF a = b THEN a ELSE IF Max2(a, b) >= 6 THEN Max2(a, b) ELSE Max2(Max2(a, b), 3)

(* Operand storage codes 0 fixed, 1 dynamic, 2 external fixed, 3 external   *)
(* dynamic, 4/5 the same over constants.  Only the size survives.           *)
FixedSz(s) == s % 2 = 0
VT(k, fixed, n) == IF fixed THEN <<k, 0, n>> ELSE <<k, 1, -1>>
MT(k, fixed, r, c, b, y) == IF fixed THEN <<k, 0, r, c, b, y>> ELSE <<k, 1, -1, -1, b, y>>
BasisOf(i) == (i \div 4) % 2
LayoutOf(i) == (i \div 8) % 2
\* equal tags stay, "either" gives way to the other, different tags give "either"
Meet(a, b) == IF a = b THEN a ELSE IF a = 2 THEN b ELSE IF b = 2 THEN a ELSE 2
Join(s, t) == FixedSz(s) \/ FixedSz(t)

TypeExpect(e, k) ==
  CASE e.op = "tvv" -> LET K == Common(e.k1, e.k2) IN
         (CASE k \in {"add", "sub", "had"} -> VT(K, Join(e.s1, e.s2), e.n)
            [] k \in {"scale", "div"} -> VT(K, FixedSz(e.s1), e.n)
            [] k = "cross" -> VT(K, Join(e.s1, e.s2), 3)
            [] k = "dot" -> <<K>>
            [] k = "outer" -> MT(K, FixedSz(e.s1), e.n, e.n, 2, 2))
    [] e.op = "tv" ->
         (CASE k \in {"neg", "same"} -> VT(e.k, FixedSz(e.s), e.n)
            [] k \in {"sub1", "lessone"} -> VT(e.k, FixedSz(e.s), e.n - 1)
            [] k = "super" -> VT(e.k, FixedSz(e.s), e.n + 1)
            [] k = "elem" -> <<e.k>>)
    [] e.op = "tmm" -> LET K == Common(e.k1, e.k2)  b == Meet(BasisOf(e.s1), BasisOf(e.s2))  y == Meet(LayoutOf(e.s1), LayoutOf(e.s2)) IN
         (CASE k \in {"add", "sub", "had"} -> MT(K, Join(e.s1, e.s2), e.r, e.c, b, y)
            [] k = "add2" -> MT(K, Join(e.s1, e.s2), e.r, e.c, Meet(b, BasisOf(e.s2)), Meet(y, LayoutOf(e.s2)))
            [] k \in {"scale", "div"} -> MT(K, FixedSz(e.s1), e.r, e.c, BasisOf(e.s1), LayoutOf(e.s1))
            \* r x c times c x (r+1): rows from the left, columns from the right
            [] k = "mul" -> MT(K, FixedSz(e.s1) /\ FixedSz(e.s2), e.r, e.r + 1, b, y))
    [] e.op = "tm" -> LET f == FixedSz(e.s)  b == BasisOf(e.s)  y == LayoutOf(e.s) IN
         (CASE k = "neg" -> MT(e.k, f, e.r, e.c, b, y)
            [] k = "tr" -> MT(e.k, f, e.c, e.r, b, y)
            [] k = "row" -> VT(e.k, f, e.c)
            [] k = "col" -> VT(e.k, f, e.r)
            [] k = "basis" -> VT(e.k, f, IF b = 1 THEN e.c ELSE e.r)
            [] k = "inv" -> MT(e.k, f, e.r, e.r, b, y)
            [] k = "elem" -> <<e.k>>)
    [] e.op = "tmv" -> LET K == Common(e.k1, e.k2) IN
         (CASE k = "mv" -> VT(K, FixedSz(e.s1), e.r)
            [] k = "vm" -> VT(K, FixedSz(e.s1), e.c))
    [] e.op = "tqq" -> LET K == Common(e.k1, e.k2)  o == e.s1 % 2  x == e.s1 \div 2 IN
         (CASE k \in {"add", "sub", "mul", "scale", "div"} -> <<K, 0, o, x>>
            [] k = "neg" -> <<e.k1, 0, o, x>>
            \* the language's unary minus promotes narrow integers
            [] k = "minus" -> <<Max2(e.k1, 3), 0, o, x>>
            [] k = "imag" -> <<e.k1, 0, 3>>
            [] k = "dot" -> <<K>>
            [] k = "elem" -> <<e.k1>>)
    \* the named types: <<element, constant elements, external memory, sizes (-1 run time)..., basis, layout | order, cross>>
    [] e.op = "talias" -> LET sz(n) == IF n = 0 THEN -1 ELSE n IN
         (CASE e.fam \in {1, 2} -> <<e.k, e.cst, e.fam - 1, sz(e.r)>>
            \* suffix 0 none: column basis over row-major; 1 "_r": rows and rows; 2 "_c": columns and columns
            [] e.fam \in {3, 4} -> <<e.k, e.cst, e.fam - 3, sz(e.r), sz(e.c), IF e.sfx = 1 THEN 1 ELSE 0, IF e.sfx = 2 THEN 1 ELSE 0>>
            \* 0 none, 1 _ip, 2 _p, 3 _in, 4 _n, 5 _rp, 6 _rn
            [] e.fam = 5 -> <<e.k, 0, 0, 4, IF e.sfx >= 5 THEN 1 ELSE 0, IF e.sfx \in {3, 4, 6} THEN 1 ELSE 0>>)
TypeAccept(e, o) == LET x == TypeExpect(e, o.k) IN Len(o.v) = Len(x) /\ \A j \in 1..Len(x) : o.v[j] = <<x[j], 0>>
=============================================================================
