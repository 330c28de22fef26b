----------------------------- MODULE CmlMStore -----------------------------
(* Matrices as objects: the matrix counterpart of CmlStore.  Elements are   *)
(* held in storage order; a register's layout says which cell (i, j) is.    *)
(* An instruction is <<code, p, q, r, a, b, x1..x6>>.                       *)
EXTENDS CmlStore

\* kind: F fixed<2,3>, D resizable, X fixed-size view, Y run-time-sized view
MKinds == <<"F", "F", "F", "D", "D", "D", "D", "X", "X", "Y", "Y", "Y", "X">>
\* storage layout: 0 row-major, 1 column-major
MLays == <<0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0>>
\* 0 column basis, 1 row basis
MBases == <<0, 0, 1, 0, 0, 1, 1, 0, 1, 0, 1, 0, 0>>
MRegs == 0..12
MKind(p) == MKinds[p + 1]
MLay(p) == MLays[p + 1]
MIsView(p) == MKind(p) \in {"X", "Y"}
MFixed(p) == MKind(p) \in {"F", "X"}
MSameType == {<<0, 1>>, <<1, 0>>, <<3, 4>>, <<4, 3>>, <<9, 11>>, <<11, 9>>, <<7, 12>>, <<12, 7>>}
MMemLen == 26
MViewCells == 4..23

MOwn(r, c, d) == [st |-> 0, r |-> r, c |-> c, d |-> d, off |-> 0]
MView(off, r, c) == [st |-> 0, r |-> r, c |-> c, d |-> << >>, off |-> off]
MNull == [st |-> 2, r |-> 0, c |-> 0, d |-> << >>, off |-> 0]
MInit == [mem |-> [k \in 1..MMemLen |-> 200 + k],
          reg |-> <<MOwn(2, 3, <<1, 2, 3, 4, 5, 6>>), MOwn(2, 3, <<-1, 7, -3, 8, -5, 9>>), MOwn(2, 3, <<11, 12, 13, 14, 15, 16>>),
                    MOwn(2, 3, <<21, 22, 23, 24, 25, 26>>), MOwn(3, 2, <<-31, 32, 33, -34, 35, 36>>), MOwn(3, 2, <<41, 42, 43, 44, 45, 46>>),
                    MOwn(2, 2, <<51, 52, 53, 54>>),
                    MView(4, 2, 3), MView(8, 2, 3), MView(6, 3, 2), MView(12, 2, 3), MView(14, 3, 3), MView(18, 2, 3)>>]
MReg(s, p) == s.reg[p + 1]
MLive(s, p) == MReg(s, p).st = 0
MCells(s, p) == MReg(s, p).r * MReg(s, p).c
MStorage(s, p) == LET g == MReg(s, p) IN IF MIsView(p) THEN SubSeq(s.mem, g.off, g.off + g.r * g.c - 1) ELSE g.d
\* position of element (i, j) (from 1) in storage order
SLin(lay, r, c, i, j) == IF lay = 0 THEN (i - 1) * c + j ELSE (j - 1) * r + i
\* values of a matrix, as rows in order
MRows(s, p) == LET g == MReg(s, p)  d == MStorage(s, p) IN
               [k \in 1..(g.r * g.c) |-> d[SLin(MLay(p), g.r, g.c, (k - 1) \div g.c + 1, ((k - 1) % g.c) + 1)]]
\* storage order of row-ordered values
ToStore(lay, r, c, v) == [k \in 1..(r * c) |-> IF lay = 0 THEN v[k] ELSE LET i == ((k - 1) % r) + 1  j == (k - 1) \div r + 1 IN v[(i - 1) * c + j]]
MSet(s, p, r, c, v) == LET x == ToStore(MLay(p), r, c, v) IN
  IF MIsView(p) THEN [s EXCEPT !.mem = Over2(s.mem, MReg(s, p).off, x), !.reg[p + 1].r = r, !.reg[p + 1].c = c]
  ELSE [s EXCEPT !.reg[p + 1] = MOwn(r, c, x)]
MSetStore(s, p, x) == IF MIsView(p) THEN [s EXCEPT !.mem = Over2(s.mem, MReg(s, p).off, x)] ELSE [s EXCEPT !.reg[p + 1].d = x]
MSetReg(s, p, g) == [s EXCEPT !.reg[p + 1] = g]
\* give p the r x c value v
MGive(s, p, r, c, v) ==
  CASE MKind(p) = "D" -> Ok(MSet(s, p, r, c, v))
    [] MKind(p) = "Y" -> IF r * c = MCells(s, p) THEN Ok(MSet(s, p, r, c, v)) ELSE Fail(s, {6})
    [] OTHER -> IF r = MReg(s, p).r /\ c = MReg(s, p).c THEN Ok(MSet(s, p, r, c, v)) ELSE Fail(s, {5})
RECURSIVE USum(_, _)
USum(f, n) == IF n = 0 THEN 0 ELSE UAdd(USum(f, n - 1), f[n])
MProd(a, ar, ac, b, bc) == [k \in 1..(ar * bc) |-> LET i == (k - 1) \div bc + 1  j == ((k - 1) % bc) + 1 IN
                              USum([n \in 1..ac |-> UMul(a[(i - 1) * ac + n], b[(n - 1) * bc + j])], ac)]
MTrans(v, r, c) == [k \in 1..(r * c) |-> LET i == (k - 1) \div r + 1  j == ((k - 1) % r) + 1 IN v[(j - 1) * c + i]]

MDims == ((-1..3) \X (-1..3)) \cup {<<7, 2>>, <<2, 7>>, <<8, 1>>, <<1, 8>>, <<5, 3>>, <<4, 4>>}
\* an instruction's values, going on past the sixth
Further(x, k) == x[((k - 1) % 6) + 1] + 10 * ((k - 1) \div 6)
MCodes == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 35, 36, 37}
MStep(s, w) ==
  LET c == w[1]  p == w[2]  q == w[3]  t == w[4]  a == w[5]  b == w[6]
      X == SubSeq(w, 7, 12)
      P == MReg(s, p)  Q == MReg(s, q)
      mine == MRows(s, p)  his == MRows(s, q)
      same == P.r = Q.r /\ P.c = Q.c
      Same(v) == Ok(MSet(s, p, P.r, P.c, v))
      OnBoth(f(_, _)) == IF same THEN Same(Zip2(f, mine, his)) ELSE Fail(s, {5})
  IN CASE c = 1 -> MGive(s, p, Q.r, Q.c, his)
       [] c \in {2, 4} -> (IF MIsView(p) THEN Ok(MSetReg(MSetReg(s, p, Q), q, MNull))
                           ELSE Ok(MSetReg(MSetReg(s, p, Q), q, [Q EXCEPT !.st = 1])))
       [] c = 3 -> Ok(MSetReg(s, p, Q))
       [] c = 5 -> (IF a < 0 \/ b < 0 THEN Fail(s, {4})
                    ELSE IF MIsView(p) THEN (IF a * b = MCells(s, p) THEN Ok(MSetReg(s, p, MView(P.off, a, b))) ELSE Fail(s, {6}))
                    ELSE Ok(MSetReg(s, p, MOwn(a, b, [k \in 1..(a * b) |-> IF k <= Len(P.d) THEN P.d[k] ELSE UNK]))))
       [] c = 6 -> (IF a < 0 \/ b < 0 THEN Fail(s, {4})
                    ELSE Ok(MSetReg(s, p, MOwn(a, b, [k \in 1..(a * b) |-> IF a * b = Len(P.d) THEN P.d[k] ELSE UNK]))))
       [] c \in {7, 8} -> Same([mine EXCEPT ![a * P.c + b + 1] = X[1]])             \* element (a, b), from zero
       [] c = 35 -> Same([mine EXCEPT ![IF MBases[p + 1] = 1 THEN a * P.c + b + 1 ELSE b * P.c + a + 1] = X[1]])   \* element b of basis vector a
       [] c = 9 -> Ok(MSetStore(s, p, [MStorage(s, p) EXCEPT ![a + 1] = X[1]]))     \* storage cell a
       [] c = 10 -> OnBoth(UAdd)
       [] c = 11 -> OnBoth(USub)
       [] c = 37 -> Same([k \in 1..Len(mine) |-> TDiv(mine[k], X[1])])
       [] c = 12 -> Same([k \in 1..Len(mine) |-> UMul(mine[k], X[1])])
       [] c = 13 -> Ok(MSetReg(MSetReg(s, p, Q), q, P))
       [] c = 14 -> LET T == MReg(s, t) IN IF Q.r # T.r \/ Q.c # T.c THEN Fail(s, {5}) ELSE MGive(s, p, Q.r, Q.c, Zip2(UAdd, his, MRows(s, t)))
       [] c = 15 -> MGive(s, p, Q.r, Q.c, [k \in 1..Len(his) |-> USub(0, his[k])])
       [] c = 16 -> Same([k \in 1..Len(mine) |-> IF (k - 1) \div P.c = ((k - 1) % P.c) THEN 1 ELSE 0])
       [] c = 17 -> Same([k \in 1..Len(mine) |-> X[1]])
       [] c = 18 -> Same([k \in 1..Len(mine) |-> 0])
       [] c = 19 -> MGive(s, p, Q.c, Q.r, MTrans(his, Q.r, Q.c))
       [] c = 20 -> Ok(MSet(s, p, P.c, P.r, MTrans(mine, P.r, P.c)))
       [] c = 21 -> IF a < 0 \/ b < 0 THEN Fail(s, {4}) ELSE Ok(MSetReg(s, p, MOwn(a, b, [k \in 1..(a * b) |-> UNK])))
       [] c = 22 -> Ok(MSet(s, p, a, b, SubSeq(X, 1, a * b)))                         \* from sizes and a pointer or values
       [] c = 23 -> IF a < 0 \/ b < 0 THEN Fail(s, {4}) ELSE Ok(MSetReg(s, p, MView(q, a, b)))
       [] c = 24 -> Ok([s EXCEPT !.mem[q] = X[1]])
       [] c \in {25, 36} -> IF a = MCells(s, p) THEN Same(SubSeq(X, 1, a)) ELSE Fail(s, {5})   \* list; flat array
       [] c = 26 -> MGive(s, p, a, b, SubSeq(X, 1, a * b))                            \* 2-D array
       [] c \in {27, 29} -> Ok(MSetReg(s, p, MNull))
       [] c = 28 -> IF MKind(p) = "D" \/ (Q.r = 2 /\ Q.c = 3) THEN Ok(MSet(s, p, Q.r, Q.c, his)) ELSE Fail(s, {5})
       [] c = 30 -> LET T == MReg(s, t) IN IF Q.c # T.r THEN Fail(s, {7}) ELSE MGive(s, p, Q.r, T.c, MProd(his, Q.r, Q.c, MRows(s, t), T.c))
       [] c = 31 -> IF b # P.c THEN Fail(s, {9}) ELSE Same([k \in 1..Len(mine) |-> IF (k - 1) \div P.c = a THEN Further(X, ((k - 1) % P.c) + 1) ELSE mine[k]])
       [] c = 32 -> IF b # P.r THEN Fail(s, {8}) ELSE Same([k \in 1..Len(mine) |-> IF ((k - 1) % P.c) = a THEN Further(X, (k - 1) \div P.c + 1) ELSE mine[k]])
       [] c = 33 -> OnBoth(LAMBDA x, y : UAdd(UMul(2, x), y))

MOverlap(s, p, q) == /\ MIsView(p) /\ MIsView(q)
                     /\ MReg(s, p).off < MReg(s, q).off + MCells(s, q) /\ MReg(s, q).off < MReg(s, p).off + MCells(s, p)
MClash(s, p, q) == MOverlap(s, p, q) /\ ~(MReg(s, p) = MReg(s, q) /\ MLay(p) = MLay(q))
MReads == {1, 10, 11, 14, 15, 19, 28, 30, 33}
MBounded(s) == /\ \A k \in 1..MMemLen : Abs(s.mem[k]) <= 100000 \/ s.mem[k] = UNK
               /\ \A p \in MRegs : \A k \in 1..Len(MReg(s, p).d) : Abs(MReg(s, p).d[k]) <= 100000 \/ MReg(s, p).d[k] = UNK
MPre(s, w) ==
  LET c == w[1]  p == w[2]  q == w[3]  t == w[4]  a == w[5]  b == w[6] IN
  /\ (c # 24) => p \in MRegs
  /\ (c \in MReads \cup {2, 3, 4, 13}) => q \in MRegs /\ MLive(s, q) /\ (c # 30 => MCells(s, q) > 0)
  /\ (c \in {5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 20, 31, 32, 33, 35, 25, 36, 37}) => MLive(s, p)
  /\ (c \in {7, 8, 9, 10, 11, 12, 16, 17, 18, 20, 31, 32, 33, 35, 25, 36, 37}) => MCells(s, p) > 0
  /\ c = 37 => w[7] # 0 /\ \A k \in 1..MCells(s, p) : LET y == MRows(s, p)[k] IN y # UNK /\ y = TDiv(y, w[7]) * w[7]
  /\ (MIsView(p) /\ c \in {1, 14, 15, 19, 26, 30}) => MLive(s, p)
  /\ (c \in {1, 10, 11, 14, 15, 33}) => ~MClash(s, p, q)
  /\ (c \in MReads \cup {26}) /\ MFixed(p) /\ c # 30 /\ c # 14 => (IF c = 26 THEN a = 2 /\ b = 3 ELSE (MFixed(q) => c # 19))
  /\ (c \in {2, 3, 4, 13}) => <<p, q>> \in MSameType
  /\ (c \in {3, 13}) => ~MIsView(p)
  /\ c = 5 => MKind(p) \in {"D", "Y"} /\ <<a, b>> \in MDims /\ (MKind(p) = "Y" => a # 0 /\ b # 0)
  /\ (c \in {6, 21}) => MKind(p) = "D" /\ <<a, b>> \in MDims
  /\ (c \in {7, 8}) => a \in 0..(MReg(s, p).r - 1) /\ b \in 0..(MReg(s, p).c - 1)
  /\ c = 35 => (IF MBases[p + 1] = 1 THEN a \in 0..(MReg(s, p).r - 1) /\ b \in 0..(MReg(s, p).c - 1)
                ELSE b \in 0..(MReg(s, p).r - 1) /\ a \in 0..(MReg(s, p).c - 1))
  /\ c = 9 => a \in 0..(MCells(s, p) - 1)
  /\ (c \in {14, 30}) => t \in MRegs /\ MLive(s, t) /\ MCells(s, t) > 0 /\ MCells(s, q) > 0
  /\ (c \in {14, 30}) => t \in {0, 3, 5, 6, 9, 10}
  /\ c = 14 => ~MClash(s, p, t)
  /\ c = 19 => p # q /\ ~MOverlap(s, p, q)
  /\ c = 20 => MKind(p) \in {"D", "Y"}
  /\ c = 22 => a \in 1..3 /\ b \in 1..3 /\ a * b <= 6 /\ (MKind(p) = "D" \/ (MKind(p) = "F" /\ a = 2 /\ b = 3))
  /\ c = 23 => MIsView(p) /\ (IF MFixed(p) THEN a = 2 /\ b = 3 ELSE <<a, b>> \in MDims /\ a # 0 /\ b # 0)
               /\ (a > 0 /\ b > 0 => q \in MViewCells /\ q + a * b - 1 \in MViewCells)
  /\ c = 24 => q \in 1..MMemLen
  /\ c = 25 => a \in 1..6
  /\ c = 36 => a \in {2, 4, 6} /\ (MFixed(p) => a = 6)
  /\ c = 26 => a \in 1..3 /\ b \in 1..3 /\ a * b <= 6
  /\ c = 27 => MKind(p) = "Y"
  /\ c = 29 => MIsView(p)
  /\ c = 28 => ~MIsView(p) /\ p # q
  /\ c = 30 => MLay(q) = MLay(t) /\ MBases[q + 1] = MBases[t + 1] /\ ~(MFixed(q) /\ MFixed(t))
  /\ c = 31 => a \in 0..(MReg(s, p).r - 1) /\ b \in 1..8
  /\ c = 32 => a \in 0..(MReg(s, p).c - 1) /\ b \in 1..8
  /\ MBounded(MStep(s, w).s)

RECURSIVE MRun(_, _, _)
MRun(s, p, n) == IF n > Len(p) THEN << >> ELSE LET t == MStep(s, p[n]) IN <<t>> \o MRun(t.s, p, n + 1)
RECURSIVE MProgPre(_, _, _)
MProgPre(s, p, n) == n > Len(p) \/ (MPre(s, p[n]) /\ MProgPre(MStep(s, p[n]).s, p, n + 1))
(* Observed: the buffer; per register its state, shape, place, elements by  *)
(* row and column, and elements in storage order through its iterators.     *)
MShow(s) == s.mem \o Cat(13, LAMBDA j : LET p == j - 1  g == MReg(s, p) IN
                 IF g.st = 1 THEN <<1>>
                 ELSE IF g.st = 2 THEN <<2, 0, 0>>
                 ELSE <<0, g.r, g.c, IF MIsView(p) THEN g.off ELSE 0>> \o MRows(s, p) \o MStorage(s, p))

MStoreOps == {"mhist"}
MStorePre(e) == MProgPre(MInit, e.prog, 1)
MStoreAccept(e, o) == MatchRun(o.v, 1, LET h == MRun(MInit, e.prog, 1) IN [n \in 1..Len(h) |-> [err |-> h[n].err, x |-> MShow(h[n].s)]], 1)
=============================================================================
