------------------------------ MODULE CmlAddr ------------------------------
(* Addressing of matrix elements.  A matrix object is a shape, a basis      *)
(* orientation (0 column, 1 row), a memory layout (0 rows first, 1 columns  *)
(* first) and a linear sequence of cells d.  Element (i,j), counted from 0, *)
(* is the cell at Cell(s,i,j); every writer and every reader is defined in  *)
(* terms of elements, and only the layout says where an element lives.      *)
EXTENDS CmlCmp

Store(r, c, bas, lay, d) == [r |-> r, c |-> c, bas |-> bas, lay |-> lay, d |-> d]
Cell(s, i, j) == IF s.lay = 0 THEN i * s.c + j + 1 ELSE j * s.r + i + 1
ElAt(s, i, j) == s.d[Cell(s, i, j)]
RowOfCell(s, k) == IF s.lay = 0 THEN (k - 1) \div s.c ELSE (k - 1) % s.r
ColOfCell(s, k) == IF s.lay = 0 THEN (k - 1) % s.c ELSE (k - 1) \div s.r
(* The object of the given shape whose element (i,j) is f(i,j). *)
Fill(s, r, c, f(_, _)) == LET t == Store(r, c, s.bas, s.lay, << >>)
                          IN [t EXCEPT !.d = [k \in 1..(r * c) |-> f(RowOfCell(t, k), ColOfCell(t, k))]]
Elems(s) == [n \in 1..(s.r * s.c) |-> ElAt(s, (n - 1) \div s.c, (n - 1) % s.c)]
FromRows(r, c, bas, lay, a) == Fill(Store(r, c, bas, lay, << >>), r, c, LAMBDA i, j : a[i * c + j + 1])

PutEl(s, i, j, x) == [s EXCEPT !.d[Cell(s, i, j)] = x]
SetRow(s, p, x) == Fill(s, s.r, s.c, LAMBDA i, j : IF i = p THEN x[j + 1] ELSE ElAt(s, i, j))
SetCol(s, p, x) == Fill(s, s.r, s.c, LAMBDA i, j : IF j = p THEN x[i + 1] ELSE ElAt(s, i, j))
BCount(s) == IF s.bas = 1 THEN s.r ELSE s.c
BSize(s) == IF s.bas = 1 THEN s.c ELSE s.r
BEl(s, i, j) == IF s.bas = 1 THEN ElAt(s, i, j) ELSE ElAt(s, j, i)
SetBEl(s, i, j, x) == IF s.bas = 1 THEN PutEl(s, i, j, x) ELSE PutEl(s, j, i, x)
Transposed(s) == Fill(s, s.c, s.r, LAMBDA i, j : ElAt(s, j, i))

(* One instruction <<code, i, j, x1..x12>> of a program. *)
DoWrite(s, w) ==
  LET i == w[2]  j == w[3]  x == SubSeq(w, 4, Len(w)) IN
  CASE w[1] \in {1, 2, 3, 11} -> PutEl(s, i, j, x[1])
    [] w[1] \in {4, 14} -> SetRow(s, i, x)
    [] w[1] \in {5, 15} -> SetCol(s, j, x)
    [] w[1] \in {6, 16} -> SetBEl(s, i, j, x[1])
    [] w[1] = 7 -> [s EXCEPT !.d[i + 1] = x[1]]
    [] w[1] = 20 -> [s EXCEPT !.d = EScale(s.d, 3)]
    [] w[1] = 21 -> [s EXCEPT !.d = EScale(s.d, -2)]
    [] w[1] = 22 -> SetRow(s, i, [k \in 1..s.c |-> ElAt(s, j, k - 1)])
    [] w[1] = 23 -> SetCol(s, j, [k \in 1..s.r |-> ElAt(s, k - 1, i)])
    [] w[1] \in {30, 31, 33} -> Transposed(s)
    [] w[1] = 32 -> Fill(s, s.r, s.c, LAMBDA p, q : IF p = q THEN 1 ELSE 0)

WritePre(s, w) ==
  LET i == w[2]  j == w[3] IN
  CASE w[1] \in {1, 2, 3, 11} -> i \in 0..(s.r - 1) /\ j \in 0..(s.c - 1)
    [] w[1] \in {4, 14} -> i \in 0..(s.r - 1)
    [] w[1] \in {5, 15} -> j \in 0..(s.c - 1)
    [] w[1] \in {6, 16} -> i \in 0..(BCount(s) - 1) /\ j \in 0..(BSize(s) - 1)
    [] w[1] = 7 -> i \in 0..(s.r * s.c - 1)
    [] w[1] = 22 -> i \in 0..(s.r - 1) /\ j \in 0..(s.r - 1)
    [] w[1] = 23 -> i \in 0..(s.c - 1) /\ j \in 0..(s.c - 1)
    [] w[1] \in {30, 31, 32} -> s.r = s.c
    [] OTHER -> TRUE

(* The states of an object along a program. *)
RECURSIVE RunProg(_, _, _)
RunProg(s, p, n) == IF n > Len(p) THEN <<s>> ELSE <<s>> \o RunProg(DoWrite(s, p[n]), p, n + 1)
RECURSIVE ProgPre(_, _, _)
ProgPre(s, p, n) == n > Len(p) \/ (WritePre(s, p[n]) /\ ProgPre(DoWrite(s, p[n]), p, n + 1))

(* What the readers show of an object. *)
Cat(n, f(_)) == LET RECURSIVE F(_)
                    F(k) == IF k = 0 THEN << >> ELSE F(k - 1) \o f(k)
                IN F(n)
Project(s) ==
  <<s.r, s.c, s.r, s.c, BCount(s), BSize(s)>>
  \o Elems(s) \o Elems(s)
  \o Cat(s.r, LAMBDA i : <<s.c>> \o [j \in 1..s.c |-> ElAt(s, i - 1, j - 1)])
  \o Cat(s.c, LAMBDA j : <<s.r>> \o [i \in 1..s.r |-> ElAt(s, i - 1, j - 1)])
  \o Cat(BCount(s), LAMBDA i : <<BSize(s)>> \o [j \in 1..BSize(s) |-> BEl(s, i - 1, j - 1)])
  \o Cat(BCount(s), LAMBDA i : [j \in 1..BSize(s) |-> BEl(s, i - 1, j - 1)])
  \o s.d \o s.d
  \o <<s.c, s.r>> \o Elems(Transposed(s))

(* Printed text, as character codes. *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE DecDigits(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o DecDigits(-n) ELSE DecDigits(n)
Spaced(x) == Cat(Len(x), LAMBDA j : (IF j = 1 THEN << >> ELSE <<32>>) \o Decimal(x[j]))
TextOfMat(s) == Cat(s.r, LAMBDA i : <<91>> \o Cat(s.c, LAMBDA j : <<32>> \o Decimal(ElAt(s, i - 1, j - 1))) \o <<32, 93>>
                                    \o (IF i = s.r THEN << >> ELSE <<10>>))
TextOfQuat(q) == <<91, 32, 32>> \o Spaced(q) \o <<32, 93>>

(* The object a constructor builds from the list a. *)
Built(e) == IF e.ctor \in {7, 8} THEN Store(e.r, e.c, e.bas, e.lay, e.a) ELSE FromRows(e.r, e.c, e.bas, e.lay, e.a)

AddrOps == {"addr", "addrl", "vprint", "qprint"}
AddrPre(e) == e.op \in {"addr", "addrl"} => ProgPre(Built(e), e.prog, 1)
AddrExpect(e) ==
  CASE e.op \in {"addr", "addrl"} -> LET h == RunProg(Built(e), e.prog, 1)
                        IN Cat(Len(h), LAMBDA n : Project(h[n])) \o TextOfMat(h[Len(h)])
    [] e.op = "vprint" -> Spaced(e.a)
    [] e.op = "qprint" -> TextOfQuat(e.a)
AddrAccept(e, o) == o.v = LET x == AddrExpect(e) IN [n \in 1..Len(x) |-> <<x[n], 0>>]
=============================================================================
