----------------------------- MODULE MC_MStore -----------------------------
(* Histories of the matrix state machine; see MC_Store.                     *)
EXTENDS CmlMStore, Json, IOUtils, TLC, Randomization

CONSTANTS Depth, Focus, Second
VARIABLES s, hist, ok, fin
vars == <<s, hist, ok, fin>>

XS == {<<a, b, a + 5, b - 9, 2 * a, 17>> : a \in {-7, 3}, b \in {1, 12}}
Z6 == <<0, 0, 0, 0, 0, 0>>
Pairs == MRegs \X MRegs
IDims == ((0..2) \X (0..2)) \cup {<<6, 1>>, <<1, 6>>, <<7, 0>>, <<0, 7>>, <<4, 2>>, <<3, 3>>}
Ins(c) == CASE c \in {1, 10, 11, 15, 19, 28, 33} -> {<<c, p[1], p[2], 0, 0, 0>> \o Z6 : p \in Pairs}
            [] c \in {2, 3, 4, 13} -> {<<c, p[1], p[2], 0, 0, 0>> \o Z6 : p \in MSameType}
            [] c \in {5, 6, 21} -> {<<c, p, 0, 0, d[1], d[2]>> \o Z6 : p \in {3, 4, 5, 6, 9, 10, 11}, d \in MDims}
            [] c \in {7, 8, 35} -> {<<c, p, 0, 0, d[1], d[2]>> \o x : p \in MRegs, d \in IDims, x \in XS}
            [] c = 9 -> {<<c, p, 0, 0, a, 0>> \o x : p \in MRegs, a \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 13}, x \in XS}
            [] c = 37 -> {<<c, p, 0, 0, 0, 0>> \o <<x, 0, 0, 0, 0, 0>> : p \in MRegs, x \in {-1, 2, 3}}
            [] c \in {12, 17, 18, 16, 20} -> {<<c, p, 0, 0, 0, 0>> \o <<x, 0, 0, 0, 0, 0>> : p \in MRegs, x \in {-3, 2, 0, 1}}
            [] c \in {14, 30} -> {<<c, p[1], p[2], t, 0, 0>> \o Z6 : p \in Pairs, t \in {0, 3, 5, 6, 9, 10}}
            [] c = 22 -> {<<c, p, 0, 0, d[1], d[2]>> \o x : p \in 0..6, d \in (1..3) \X (1..3), x \in XS}
            [] c = 23 -> {<<c, p, q, 0, d[1], d[2]>> \o Z6 : p \in 7..12, q \in 4..21, d \in MDims}
            [] c = 24 -> {<<c, 0, q, 0, 0, 0>> \o x : q \in 1..MMemLen, x \in XS}
            [] c \in {25, 36} -> {<<c, p, 0, 0, a, 0>> \o x : p \in MRegs, a \in 1..6, x \in XS}
            [] c = 26 -> {<<c, p, 0, 0, d[1], d[2]>> \o x : p \in MRegs, d \in (1..3) \X (1..3), x \in XS}
            [] c \in {27, 29} -> {<<c, p, 0, 0, 0, 0>> \o Z6 : p \in 7..12}
            [] c \in {31, 32} -> {<<c, p, 0, 0, a, b>> \o x : p \in MRegs, a \in 0..2, b \in 1..8, x \in XS}
Weight(c, w) == CASE Focus = 6 -> c \in {23, 24} \/ MIsView(w[2]) \/ (c \in MReads /\ MIsView(w[3]))
                  [] Focus = 7 -> c = 24 \/ ~MIsView(w[2])
                  [] Focus = 8 -> MStep(s, w).err # {0}
                  [] OTHER -> TRUE
Cand(c, k) == LET all == Ins(c) IN IF Cardinality(all) = 0 THEN {} ELSE RandomSubset(Min2(k, Cardinality(all)), all)
Init == s = MInit /\ hist = << >> /\ ok = TRUE /\ fin = FALSE
Frame(a, w, b) ==
  LET e == MStep(a, w)
      regs == {w[2]} \cup (IF w[1] \in {2, 4, 13} THEN {w[3]} ELSE {})
      cells == IF w[1] = 24 THEN {w[3]}
               ELSE IF w[2] \in MRegs /\ MIsView(w[2]) /\ MLive(a, w[2]) /\ w[1] \notin {2, 3, 4, 5, 23, 27, 29}
               THEN MReg(a, w[2]).off..(MReg(a, w[2]).off + MCells(a, w[2]) - 1) ELSE {}
  IN /\ e.err # {0} => b = a
     /\ \A p \in MRegs : p \in regs \/ b.reg[p + 1] = a.reg[p + 1]
     /\ \A k \in 1..MMemLen : k \in cells \/ b.mem[k] = a.mem[k]
     /\ \A p \in MRegs : (MFixed(p) /\ MLive(b, p)) => MReg(b, p).r = 2 /\ MReg(b, p).c = 3
     /\ \A p \in MRegs : (MIsView(p) /\ w[1] \notin {2, 3, 4, 23, 27, 29}) => b.reg[p + 1].off = a.reg[p + 1].off /\ MCells(b, p) = MCells(a, p)
     \* reading back what a write of one element did, through the other accessor
     /\ (e.err = {0} /\ w[1] \in {7, 8}) => MStorage(b, w[2])[SLin(MLay(w[2]), MReg(b, w[2]).r, MReg(b, w[2]).c, w[5] + 1, w[6] + 1)] = w[7]
     \* transposing twice changes nothing
     /\ (w[1] = 20) => MStep(b, w).s = a
Step(w) == /\ MPre(s, w)
           /\ s' = MStep(s, w).s
           /\ hist' = Append(hist, w)
           /\ ok' = Frame(s, w, s')
           /\ fin' = FALSE
Next == \/ /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<s, hist, ok>>
        \/ /\ Len(hist) < Depth
           /\ \E c \in RandomSubset(5, MCodes) : \E w \in Cand(c, 16) :
                /\ MPre(s, w)
                /\ Weight(c, w) \/ (Focus = 8 /\ RandomElement(1..6) = 1)
                /\ Step(w)
FrameOK == ok
TypeOK == \A p \in MRegs : LET g == MReg(s, p) IN
            /\ g.st \in 0..2
            /\ MIsView(p) => g.d = << >> /\ g.st # 1
            /\ ~MIsView(p) => Len(g.d) = g.r * g.c
            /\ (MIsView(p) /\ MLive(s, p) /\ MCells(s, p) > 0) => g.off \in MViewCells /\ g.off + MCells(s, p) - 1 \in MViewCells
Export == fin =>
            Serialize(ToJson([op |-> "mhist", prog |-> hist]) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
ExNext == \/ Len(hist) = 0 /\ \E c \in MCodes : \E w \in Ins(c) : MPre(s, w) /\ Step(w)
          \/ Len(hist) = 1 /\ \E c \in Second : \E w \in Ins(c) : MPre(s, w) /\ Step(w)
=============================================================================
