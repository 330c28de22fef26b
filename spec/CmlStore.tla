------------------------------ MODULE CmlStore ------------------------------
(* Vectors as objects.  The state is a caller-owned buffer mem and a file   *)
(* of registers.  An owning register carries its elements d; a view carries *)
(* an offset into the buffer and a length and has no elements of its own.   *)
(* st: 0 usable, 1 moved from (value unspecified), 2 view of nothing.       *)
(* An instruction is <<code, p, q, r, n, x1..x5>>; a step yields the new    *)
(* state and the set of error codes it may report ({0} is success), and an  *)
(* error leaves the state as it was.                                        *)
EXTENDS CmlAddr

UNK == 1000000007           \* an element whose value is unspecified
VKinds == <<"F", "F", "D", "D", "D", "X", "X", "Y", "Y", "CX", "CY">>
VKind(p) == VKinds[p + 1]
VRegs == 0..10
VIsView(p) == VKind(p) \in {"X", "Y", "CX", "CY"}
VWritable(p) == VKind(p) \notin {"CX", "CY"}
VFixed(p) == VKind(p) \in {"F", "X", "CX"}
VSameType == {<<0, 1>>, <<1, 0>>, <<2, 3>>, <<3, 2>>, <<5, 6>>, <<6, 5>>, <<7, 8>>, <<8, 7>>}
MemLen == 20
ViewCells == 4..17          \* cells a view may cover; the others are guards

Own(d) == [st |-> 0, n |-> Len(d), d |-> d, off |-> 0]
View(off, n) == [st |-> 0, n |-> n, d |-> << >>, off |-> off]
Null == [st |-> 2, n |-> 0, d |-> << >>, off |-> 0]
VInit == [mem |-> [k \in 1..MemLen |-> 100 + k],
          reg |-> <<Own(<<1, 2, 3>>), Own(<<-4, 5, -6>>), Own(<<7, 8, 9>>), Own(<<10, -11>>), Own(<<12, 13, 14, 15>>),
                    View(4, 3), View(7, 3), View(6, 4), View(12, 3), View(4, 3), View(8, 5)>>]
VReg(s, p) == s.reg[p + 1]
Live(s, p) == VReg(s, p).st = 0
VVal(s, p) == LET g == VReg(s, p) IN IF VIsView(p) THEN SubSeq(s.mem, g.off, g.off + g.n - 1) ELSE g.d
VN(s, p) == VReg(s, p).n
\* store x into the elements of p (same length)
Over2(m, off, x) == [k \in 1..Len(m) |-> IF k >= off /\ k < off + Len(x) THEN x[k - off + 1] ELSE m[k]]
VStore(s, p, x) == IF VIsView(p) THEN [s EXCEPT !.mem = Over2(s.mem, VReg(s, p).off, x)]
                   ELSE [s EXCEPT !.reg[p + 1] = Own(x)]
VSetReg(s, p, g) == [s EXCEPT !.reg[p + 1] = g]

UAdd(x, y) == IF x = UNK \/ y = UNK THEN UNK ELSE x + y
USub(x, y) == IF x = UNK \/ y = UNK THEN UNK ELSE x - y
UMul(x, y) == IF x = UNK \/ y = UNK THEN UNK ELSE x * y
UMin(x, y) == IF x = UNK \/ y = UNK THEN UNK ELSE Min2(x, y)
UMax(x, y) == IF x = UNK \/ y = UNK THEN UNK ELSE Max2(x, y)
Zip2(f(_, _), a, b) == [k \in 1..Len(a) |-> f(a[k], b[k])]
Without(a, i) == [k \in 1..(Len(a) - 1) |-> IF k <= i THEN a[k] ELSE a[k + 1]]

Ok(s) == [err |-> {0}, s |-> s]
Fail(s, errs) == [err |-> errs, s |-> s]
\* give p the value x: a dynamic vector takes its size, others must match
Give(s, p, x, errs) == IF VKind(p) = "D" \/ Len(x) = VN(s, p) THEN Ok(VStore(s, p, x)) ELSE Fail(s, errs)

VSizes == (-1..6) \cup {8, 9, 12}
VCodes == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 34, 36, 37, 38}
VStep(s, w) ==
  LET c == w[1]  p == w[2]  q == w[3]  r == w[4]  n == w[5]
      X == SubSeq(w, 6, 10)
      lst == SubSeq(X, 1, n)
      mine == VVal(s, p)  his == VVal(s, q)
      same == Len(mine) = Len(his)
  IN CASE c = 1 -> Give(s, p, his, {1})                                          \* p = q
       [] c \in {2, 4} -> (IF VIsView(p) THEN Ok(VSetReg(VSetReg(s, p, VReg(s, q)), q, Null))   \* p = move(q)
                           ELSE Ok(VSetReg(VSetReg(s, p, VReg(s, q)), q, [VReg(s, q) EXCEPT !.st = 1])))
       [] c = 3 -> Ok(VSetReg(s, p, VReg(s, q)))                                  \* copy construction over p
       [] c = 5 -> (IF n < 0 THEN Fail(s, {4})                                    \* resize
                    ELSE Ok(VSetReg(s, p, Own([k \in 1..n |-> IF k <= Len(mine) THEN mine[k] ELSE UNK]))))
       [] c = 6 -> (IF n < 0 THEN Fail(s, {4})                                    \* resize without copying
                    ELSE Ok(VSetReg(s, p, Own([k \in 1..n |-> IF n = Len(mine) THEN mine[k] ELSE UNK]))))
       [] c \in {7, 8, 34} -> Ok(VStore(s, p, [mine EXCEPT ![n + 1] = X[1]]))      \* one element
       [] c = 9 -> Give(s, p, lst, {1})                                           \* p = { ... }
       [] c = 36 -> Give(s, p, lst, {1, 2})                                       \* p = C array
       [] c = 31 -> Give(s, p, lst, {2})                                          \* p.set(...)
       [] c = 10 -> IF same THEN Ok(VStore(s, p, Zip2(UAdd, mine, his))) ELSE Fail(s, {1})
       [] c = 11 -> IF same THEN Ok(VStore(s, p, Zip2(USub, mine, his))) ELSE Fail(s, {1})
       [] c = 12 -> Ok(VStore(s, p, [k \in 1..Len(mine) |-> UMul(mine[k], X[1])]))
       [] c = 38 -> Ok(VStore(s, p, [k \in 1..Len(mine) |-> TDiv(mine[k], X[1])]))
       [] c = 13 -> Ok(VSetReg(VSetReg(s, p, VReg(s, q)), q, VReg(s, p)))          \* swap
       [] c = 14 -> IF Len(his) # VN(s, r) THEN Fail(s, {1}) ELSE Give(s, p, Zip2(UAdd, his, VVal(s, r)), {1})
       [] c = 15 -> Give(s, p, [k \in 1..Len(his) |-> USub(0, his[k])], {1})
       [] c = 16 -> Give(s, p, Without(his, n), {1})                              \* p = subvector(q, n)
       [] c = 17 -> Ok(VStore(s, p, [k \in 1..Len(mine) |-> X[1]]))
       [] c = 18 -> Ok(VStore(s, p, [k \in 1..Len(mine) |-> 0]))
       [] c = 19 -> Ok(VStore(s, p, [k \in 1..Len(mine) |-> IF k = n + 1 THEN 1 ELSE 0]))
       [] c = 20 -> IF n < 0 THEN Fail(s, {4}) ELSE Ok(VSetReg(s, p, Own([k \in 1..n |-> UNK])))
       [] c \in {21, 22} -> Ok(VSetReg(s, p, Own(lst)))                            \* from pointer and size; from a list
       [] c = 23 -> IF n < 0 THEN Fail(s, {4}) ELSE Ok(VSetReg(s, p, View(q, n)))   \* new view at cell q
       [] c = 24 -> Ok([s EXCEPT !.mem[q] = X[1]])                                 \* the caller writes its memory
       [] c = 25 -> IF same THEN Ok(VStore(s, p, Zip2(UMin, mine, his))) ELSE Fail(s, {1})
       [] c = 26 -> IF same THEN Ok(VStore(s, p, Zip2(UMax, mine, his))) ELSE Fail(s, {1})
       [] c \in {27, 29} -> Ok(VSetReg(s, p, Null))                                \* reset; destroyed and default made
       [] c = 28 -> (IF VKind(p) = "D" \/ Len(his) = 3 THEN Ok(VSetReg(s, p, Own(his))) ELSE Fail(s, {1}))
       [] c = 30 -> (IF VKind(p) = "D" \/ Len(his) = 2 THEN Ok(VSetReg(s, p, Own(Append(his, X[1])))) ELSE Fail(s, {2}))
       [] c = 37 -> IF same THEN Ok(VStore(s, p, Zip2(UAdd, [k \in 1..Len(mine) |-> UMul(2, mine[k])], his))) ELSE Fail(s, {1})

(* Views of shifted ranges must not be read while they are written; what    *)
(* the elements are then depends on the order of evaluation.                *)
Clash(s, p, q) == /\ VIsView(p) /\ VIsView(q)
                  /\ VReg(s, p).off # VReg(s, q).off
                  /\ VReg(s, p).off < VReg(s, q).off + VN(s, q) /\ VReg(s, q).off < VReg(s, p).off + VN(s, p)
Reads2 == {1, 10, 11, 14, 15, 16, 25, 26, 28, 30, 37}
Bounded(s) == /\ \A k \in 1..MemLen : Abs(s.mem[k]) <= 100000 \/ s.mem[k] = UNK
              /\ \A p \in VRegs : \A k \in 1..Len(VReg(s, p).d) : Abs(VReg(s, p).d[k]) <= 100000 \/ VReg(s, p).d[k] = UNK
VPre(s, w) ==
  LET c == w[1]  p == w[2]  q == w[3]  r == w[4]  n == w[5] IN
  /\ (c # 24) => p \in VRegs
  /\ (c \in Reads2 \cup {2, 3, 4, 13}) => q \in VRegs /\ Live(s, q)
  /\ (c \in {1, 5, 9, 16, 36, 31, 14, 15, 7, 8, 34, 10, 11, 12, 17, 18, 19, 25, 26, 37, 38}) => VWritable(p)
  /\ (c \in {7, 8, 34, 10, 11, 12, 17, 18, 19, 25, 26, 37, 38, 5, 6, 13}) => Live(s, p)
  /\ (VIsView(p) /\ c \in {1, 9, 16, 36, 31, 14, 15}) => Live(s, p)
  /\ (c \in Reads2) => ~Clash(s, p, q)
  /\ (VFixed(p) /\ c \in {1, 10, 11, 15, 25, 26, 28, 37}) => (VFixed(q) => VN(s, q) = 3)
  /\ (c \in {2, 3, 4, 13}) => <<p, q>> \in VSameType
  /\ c = 13 => ~VIsView(p)
  /\ (c \in {5, 6}) => VKind(p) = "D" /\ n \in VSizes
  /\ (c \in {20}) => VKind(p) = "D" /\ n \in VSizes
  /\ c = 21 => VKind(p) = "D" /\ n \in 1..5
  /\ c = 22 => (VKind(p) = "D" /\ n \in 1..5) \/ (VKind(p) = "F" /\ n = 3)
  /\ c = 38 => w[6] # 0 /\ \A k \in 1..VN(s, p) : LET y == VVal(s, p)[k] IN y # UNK /\ y = TDiv(y, w[6]) * w[6]
  /\ (c \in {7, 8, 34, 19}) => n \in 0..(VN(s, p) - 1)
  /\ (c \in {9, 36}) => n \in 1..5
  /\ c = 31 => (n \in 1..5 /\ VKind(p) \in {"D", "Y"}) \/ (n = 3 /\ VFixed(p))
  /\ c = 14 => r \in VRegs /\ Live(s, r) /\ ~Clash(s, p, r)
  /\ c = 16 => p # q /\ VN(s, q) >= 2 /\ n \in 0..(VN(s, q) - 1) /\ (VIsView(p) /\ VIsView(q) => VReg(s, p).off # VReg(s, q).off)
              /\ ~(VFixed(p) /\ VFixed(q))
  /\ c = 23 => VIsView(p) /\ (IF VFixed(p) THEN n = 3 ELSE n \in VSizes) /\ q \in ViewCells /\ q + n - 1 \in ViewCells \cup {3}
  /\ c = 24 => q \in 1..MemLen
  /\ c = 27 => VKind(p) \in {"Y", "CY"}
  /\ c = 29 => VIsView(p)
  /\ c = 28 => ~VIsView(p) /\ p # q
  /\ c = 30 => ~VIsView(p) /\ p # q /\ (VKind(p) = "F" => ~VFixed(q))
  /\ Bounded(VStep(s, w).s)

RECURSIVE VRun(_, _, _)
VRun(s, p, n) == IF n > Len(p) THEN << >> ELSE LET t == VStep(s, p[n]) IN <<t>> \o VRun(t.s, p, n + 1)
RECURSIVE VProgPre(_, _, _)
VProgPre(s, p, n) == n > Len(p) \/ (VPre(s, p[n]) /\ VProgPre(VStep(s, p[n]).s, p, n + 1))

(* What an observer sees after an instruction: the whole buffer, and of     *)
(* every register its state, length, position in the buffer and elements    *)
(* (through element access and through its iterators).                      *)
VShow(s) == s.mem \o Cat(11, LAMBDA j : LET p == j - 1  g == VReg(s, p) IN
                 IF g.st = 1 THEN <<1>>
                 ELSE IF g.st = 2 THEN <<2, 0>>
                 ELSE <<0, g.n, IF VIsView(p) THEN g.off ELSE 0>> \o VVal(s, p) \o VVal(s, p))

MatchObs(v, x) == v = <<x, 0>> \/ x = UNK
RECURSIVE MatchRun(_, _, _, _)
MatchRun(v, at, run, n) ==
  IF n > Len(run) THEN at = Len(v) + 1
  ELSE LET t == run[n]  x == t.x IN
       /\ at + Len(x) <= Len(v)
       /\ v[at][1] \in t.err /\ v[at][2] = 0
       /\ \A k \in 1..Len(x) : MatchObs(v[at + k], x[k])
       /\ MatchRun(v, at + Len(x) + 1, run, n + 1)

StoreOps == {"vhist"}
StorePre(e) == VProgPre(VInit, e.prog, 1)
StoreAccept(e, o) == MatchRun(o.v, 1, LET h == VRun(VInit, e.prog, 1) IN [n \in 1..Len(h) |-> [err |-> h[n].err, x |-> VShow(h[n].s)]], 1)
=============================================================================
