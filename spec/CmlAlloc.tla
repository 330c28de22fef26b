------------------------------ MODULE CmlAlloc ------------------------------
(* Resizable vectors and matrices and the allocators they draw on.  There   *)
(* are five vector and five matrix registers over two tracked allocators    *)
(* and the standard one.  A step may be run with its k-th allocation        *)
(* failing; a step that meets the failure reports it and changes nothing    *)
(* (but what it was given to move from).  After every step each register's  *)
(* storage is one block of its allocator, of exactly its size, and no other *)
(* block is outstanding; once all are destroyed, none is.                   *)
(* An instruction is <<code, p, q, r, a, b, fault, x1..x6>>.  Instructions  *)
(* whose operands do not suit them do nothing, so that every sequence is a  *)
(* program whatever failed before.                                          *)
EXTENDS CmlMStore

ANV == 5
ARegs == 0..9
AIsM(p) == p >= ANV
\* allocator of a register: 0 standard, 1 and 2 tracked
AAlloc == <<1, 1, 2, 0, 1, 1, 1, 2, 0, 1>>
ALay(p) == IF p = 7 THEN 1 ELSE 0
AProd == {5, 6, 8, 9}
ASame == {<<0, 1>>, <<1, 0>>, <<5, 6>>, <<6, 5>>}
AReg(s, p) == s[p + 1]
\* values by rows; a vector is n x 1
AObj(r, c, d) == [st |-> 0, r |-> r, c |-> c, d |-> d]
AInit == [k \in 1..10 |-> IF k <= ANV THEN AObj(0, 1, << >>) ELSE AObj(0, 0, << >>)]
ASet(s, p, r, c, d) == [s EXCEPT ![p + 1] = AObj(r, c, d)]
AGone(s, q) == [s EXCEPT ![q + 1].st = 1]
\* [err, s] and the state if an allocation fails
AOk(s, old) == [err |-> 0, s |-> s, f |-> old]
AErr(e, old) == [err |-> e, s |-> old, f |-> old]
ASmall(g) == \A k \in 1..Len(g.d) : Abs(g.d[k]) <= 500
\* n storage cells, the first ones as before and the others x
AKeep(lay, g, r, c, x) == LET old == ToStore(lay, g.r, g.c, g.d)
                              new == [k \in 1..(r * c) |-> IF k <= Len(old) THEN old[k] ELSE x]
                          IN [k \in 1..(r * c) |-> new[SLin(lay, r, c, (k - 1) \div c + 1, ((k - 1) % c) + 1)]]
AFill(r, c, x) == [k \in 1..(r * c) |-> x]
AStep(s, w) ==
  LET c == w[1]  p == w[2]  q == w[3]  r == w[4]  a == w[5]  b == w[6]
      X == SubSeq(w, 8, 13)
      P == AReg(s, p)  Q == AReg(s, q)  R == AReg(s, r)
      m == AIsM(p)
      lp == P.st = 0  lq == Q.st = 0  lr == R.st = 0
      rows == a  cols == IF m THEN b ELSE 1
      Nop == AOk(s, s)
      Put(g) == AOk(ASet(s, p, g.r, g.c, g.d), s)
  IN CASE c \in {1, 3} -> IF AIsM(q) = m /\ lq THEN Put(Q) ELSE Nop                 \* copy assignment, construction
       [] c \in {2, 4} -> IF <<p, q>> \in ASame /\ lq THEN (LET t == AGone(ASet(s, p, Q.r, Q.c, Q.d), q) IN AOk(t, s)) ELSE Nop
       [] c = 5 -> IF ~lp THEN Nop                                                  \* resize, then give the new cells a value
                   ELSE IF rows < 0 \/ cols < 0 THEN AErr(4, s)
                   ELSE Put([r |-> rows, c |-> cols, d |-> AKeep(ALay(p), P, rows, cols, X[1])])
       [] c = 6 -> IF ~lp THEN Nop ELSE IF rows < 0 \/ cols < 0 THEN AErr(4, s) ELSE Put([r |-> rows, c |-> cols, d |-> AFill(rows, cols, X[1])])
       [] c = 7 -> IF rows < 0 \/ cols < 0 THEN AErr(4, s) ELSE Put([r |-> rows, c |-> cols, d |-> AFill(rows, cols, X[1])])
       [] c = 8 -> IF ~lp THEN Nop
                   ELSE IF ~m THEN Put([r |-> a, c |-> 1, d |-> SubSeq(X, 1, a)])
                   ELSE IF a = P.r * P.c THEN Put([r |-> P.r, c |-> P.c, d |-> SubSeq(X, 1, a)]) ELSE AErr(5, s)
       [] c = 9 -> IF ~m THEN Put([r |-> a, c |-> 1, d |-> SubSeq(X, 1, a)])
                   ELSE IF a < 0 \/ b < 0 THEN AErr(4, s)
                   ELSE IF a * b = r THEN Put([r |-> a, c |-> b, d |-> SubSeq(X, 1, r)]) ELSE AErr(6, s)
       [] c = 10 -> IF ~m THEN Nop
                    ELSE IF a < 0 \/ b < 0 THEN AErr(4, s)
                    ELSE IF a * b = r THEN Put([r |-> a, c |-> b, d |-> SubSeq(X, 1, r)]) ELSE AErr(5, s)
       [] c = 11 -> IF AIsM(q) # m \/ AIsM(r) # m \/ ~lq \/ ~lr THEN Nop
                    ELSE IF Q.r = R.r /\ Q.c = R.c THEN Put([Q EXCEPT !.d = Zip2(UAdd, Q.d, R.d)]) ELSE AErr(IF m THEN 5 ELSE 1, s)
       [] c = 12 -> IF AIsM(q) # m \/ ~lp \/ ~lq THEN Nop
                    ELSE IF P.r = Q.r /\ P.c = Q.c THEN Put([P EXCEPT !.d = Zip2(UAdd, P.d, Q.d)]) ELSE AErr(IF m THEN 5 ELSE 1, s)
       [] c = 13 -> IF ~lp THEN Nop ELSE Put([P EXCEPT !.d = [k \in 1..Len(P.d) |-> P.d[k] * X[1]]])
       [] c = 14 -> IF ~m \/ q \notin AProd \/ r \notin AProd \/ ~lq \/ ~lr \/ Len(Q.d) = 0 \/ Len(R.d) = 0 \/ ~ASmall(Q) \/ ~ASmall(R) THEN Nop
                    ELSE IF Q.c # R.r THEN AErr(7, s)
                    ELSE Put([r |-> Q.r, c |-> R.c, d |-> MProd(Q.d, Q.r, Q.c, R.d, R.c)])
       [] c = 15 -> IF m \/ ~AIsM(q) \/ AIsM(r) \/ ~lq \/ ~lr \/ Len(Q.d) = 0 \/ ~ASmall(Q) \/ ~ASmall(R) THEN Nop
                    ELSE IF Q.c # R.r THEN AErr(7, s)
                    ELSE Put([r |-> Q.r, c |-> 1, d |-> MProd(Q.d, Q.r, Q.c, R.d, 1)])
       [] c = 16 -> IF m \/ AIsM(q) \/ ~AIsM(r) \/ ~lq \/ ~lr \/ Len(R.d) = 0 \/ ~ASmall(Q) \/ ~ASmall(R) THEN Nop
                    ELSE IF Q.r # R.r THEN AErr(7, s)
                    ELSE Put([r |-> R.c, c |-> 1, d |-> MProd(Q.d, 1, Q.r, R.d, R.c)])
       [] c = 17 -> IF ~m \/ AIsM(q) \/ AIsM(r) \/ ~lq \/ ~lr \/ ~ASmall(Q) \/ ~ASmall(R) THEN Nop
                    ELSE Put([r |-> Q.r, c |-> R.r, d |-> MProd(Q.d, Q.r, 1, R.d, R.r)])
       [] c = 18 -> IF ~m \/ ~lp THEN Nop ELSE Put([r |-> P.c, c |-> P.r, d |-> MTrans(P.d, P.r, P.c)])
       [] c = 19 -> IF ~m \/ ~AIsM(q) \/ ~lq \/ p = q THEN Nop ELSE Put([r |-> Q.c, c |-> Q.r, d |-> MTrans(Q.d, Q.r, Q.c)])
       [] c = 20 -> IF <<p, q>> \notin ASame \/ ~lp \/ ~lq THEN Nop ELSE AOk([s EXCEPT ![p + 1] = Q, ![q + 1] = P], s)
       [] c = 21 -> AOk([s EXCEPT ![p + 1] = AInit[p + 1]], s)                      \* destroyed and default made
       [] c = 22 -> IF m \/ AIsM(q) \/ p = q \/ ~lq \/ a >= Q.r \/ Q.r < 2 THEN Nop ELSE Put([r |-> Q.r - 1, c |-> 1, d |-> Without(Q.d, a)])
       [] c = 23 -> IF m \/ AIsM(q) \/ p = q \/ ~lq THEN Nop ELSE Put([r |-> Q.r + 1, c |-> 1, d |-> Append(Q.d, X[1])])
       [] c = 24 -> IF AIsM(q) # m \/ AIsM(r) # m \/ q = r \/ ~lq \/ ~lr THEN Nop     \* p = move(q) + r
                    ELSE LET t == AGone(s, q) IN
                         IF Q.r = R.r /\ Q.c = R.c THEN AOk(ASet(t, p, Q.r, Q.c, Zip2(UAdd, Q.d, R.d)), t) ELSE AErr(IF m THEN 5 ELSE 1, t)
       [] c = 25 -> Nop                                                             \* a computation whose result is dropped
ACodes == 1..25

\* storage of both kinds of number, exactly
AVals(d) == [k \in 1..Len(d) |-> <<d[k], 0>>]
AObs1(g) == IF g.st = 1 THEN <<1, 1>> ELSE <<0, g.r, g.c, 1>> \o g.d
AObs(s) == Cat(10, LAMBDA j : AObs1(s[j])) \o <<0, 0, 0>>
\* the observation of one step starts at v[at]: error, whether the failure was met, registers and ledgers
RECURSIVE AMatch(_, _, _, _, _)
AMatch(v, at, s, prog, n) ==
  IF n > Len(prog) THEN at + 2 = Len(v) /\ \A k \in at..Len(v) : v[k] = <<0, 0>>
  ELSE at + 1 <= Len(v) /\
       LET t == AStep(s, prog[n])
           hit == v[at + 1][1] = 1
           nxt == IF hit THEN t.f ELSE t.s
           x == AObs(nxt)
       IN /\ v[at][1] = (IF hit THEN 9 ELSE t.err)
          /\ hit => prog[n][7] > 0
          /\ at + 1 + Len(x) <= Len(v)
          /\ \A k \in 1..Len(x) : v[at + 1 + k] = <<x[k], 0>>
          /\ AMatch(v, at + 2 + Len(x), nxt, prog, n + 1)

\* the first step that went wrong: its number, what was to be seen and what was seen
RECURSIVE AWhy(_, _, _, _, _)
AWhy(v, at, s, prog, n) ==
  IF n > Len(prog) THEN <<"end", SubSeq(v, at, Len(v))>>
  ELSE LET t == AStep(s, prog[n])
           hit == at + 1 <= Len(v) /\ v[at + 1][1] = 1
           nxt == IF hit THEN t.f ELSE t.s
           x == <<IF hit THEN 9 ELSE t.err, IF hit THEN 1 ELSE 0>> \o AObs(nxt)
       IN IF at + Len(x) - 1 <= Len(v) /\ \A k \in 1..Len(x) : v[at + k - 1] = <<x[k], 0>>
          THEN AWhy(v, at + Len(x), nxt, prog, n + 1)
          ELSE <<"step", n, prog[n], "want", x, "seen", [k \in 1..Len(x) |-> IF at + k - 1 <= Len(v) THEN v[at + k - 1][1] ELSE -99]>>

\* which allocator a result uses: the operands' common one; otherwise the one that is not the default; otherwise the default
\* (a product of a matrix and a vector takes the vector's)
APick(a, b) == IF a = b THEN a ELSE IF b = 0 THEN a ELSE IF a = 0 THEN b ELSE 0

AllocOps == {"ahist", "apick"}
APre1(w) == /\ w[1] \in ACodes /\ w[2] \in ARegs /\ w[3] \in ARegs /\ (w[1] \notin {9, 10} => w[4] \in ARegs)
            /\ w[7] \in 0..6
            /\ w[1] = 8 => w[5] \in 1..6
            /\ (w[1] = 9 /\ ~AIsM(w[2])) => w[5] \in 1..6
            /\ (w[1] = 9 /\ AIsM(w[2])) => w[4] \in 1..6
            /\ w[1] = 10 => w[4] \in {1, 2, 4, 6}
            /\ w[1] = 22 => w[5] >= 0
            /\ w[1] \in {5, 6, 7, 9, 10} => w[5] \in -1..6 /\ w[6] \in -1..6
AllocPre(e) == CASE e.op = "ahist" -> \A n \in 1..Len(e.prog) : APre1(e.prog[n])
                 [] e.op = "apick" -> e.a \in 0..2 /\ e.b \in 0..2
AllocAccept(e, o) == CASE e.op = "ahist" -> AMatch(o.v, 1, AInit, e.prog, 1)
                       [] e.op = "apick" -> o.v = << <<CASE o.k = "mvec" -> e.b
                                                             [] o.k = "vecm" -> e.a
                                                             [] o.k = "vadd2" -> APick(APick(e.a, e.b), e.b)
                                                             [] OTHER -> APick(e.a, e.b), 0>> >>
=============================================================================
