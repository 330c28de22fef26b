------------------------------ MODULE MC_Store ------------------------------
(* Histories of the vector state machine.  The invariants state what value  *)
(* semantics and views mean; TLC checks them along every behaviour it       *)
(* generates, and every generated behaviour is executed on the library.     *)
EXTENDS CmlStore, Json, IOUtils, TLC, Randomization

CONSTANTS Depth, Focus, Second
VARIABLES s, hist, ok, fin
vars == <<s, hist, ok, fin>>

Val == {-7, -2, 0, 1, 3, 40}
XS == {<<a, b, a + 5, b - 9, 2 * a>> : a \in {-7, 3, 0}, b \in {1, 12}}
All == VRegs
Pairs == All \X All
Ins(c) == CASE c \in {1, 10, 11, 15, 25, 26, 28, 37} -> {<<c, p[1], p[2], 0, 0>> \o x : p \in Pairs, x \in {<<0, 0, 0, 0, 0>>}}
            [] c = 30 -> {<<c, p[1], p[2], 0, 0>> \o x : p \in Pairs, x \in XS}
            [] c \in {2, 3, 4, 13} -> {<<c, p[1], p[2], 0, 0, 0, 0, 0, 0, 0>> : p \in VSameType}
            [] c \in {5, 6, 20} -> {<<c, p, 0, 0, n, 0, 0, 0, 0, 0>> : p \in {2, 3, 4}, n \in VSizes}
            [] c \in {7, 8, 34} -> {<<c, p, 0, 0, n>> \o x : p \in All, n \in (0..5) \cup {7, 8, 11}, x \in XS}
            [] c \in {9, 36, 31, 21, 22} -> {<<c, p, 0, 0, n>> \o x : p \in All, n \in 1..5, x \in XS}
            [] c = 38 -> {<<c, p, 0, 0, 0>> \o <<x, 0, 0, 0, 0>> : p \in All, x \in {-1, 2, 3}}
            [] c \in {12, 17, 18} -> {<<c, p, 0, 0, 0>> \o <<x, 0, 0, 0, 0>> : p \in All, x \in {-3, 2, 0, 1}}
            [] c = 14 -> {<<c, p[1], p[2], r, 0, 0, 0, 0, 0, 0>> : p \in Pairs, r \in All}
            [] c = 16 -> {<<c, p[1], p[2], 0, n, 0, 0, 0, 0, 0>> : p \in Pairs, n \in (0..4) \cup {5, 7, 10}}
            [] c = 19 -> {<<c, p, 0, 0, n, 0, 0, 0, 0, 0>> : p \in All, n \in (0..4) \cup {6, 8, 11}}
            [] c = 23 -> {<<c, p, q, 0, n, 0, 0, 0, 0, 0>> : p \in 5..10, q \in 4..17, n \in VSizes}
            [] c = 24 -> {<<c, 0, q, 0, 0>> \o x : q \in 1..MemLen, x \in XS}
            [] c \in {27, 29} -> {<<c, p, 0, 0, 0, 0, 0, 0, 0, 0>> : p \in 5..10}
            [] OTHER -> {}
\* C06 wants views, C07 owners, C08 refusals
Weight(c, w) == CASE Focus = 6 -> c \in {23, 24} \/ VIsView(w[2]) \/ (c \in Reads2 /\ VIsView(w[3]))
                  [] Focus = 7 -> c = 24 \/ ~VIsView(w[2])
                  [] Focus = 8 -> VStep(s, w).err # {0}
                  [] OTHER -> TRUE
Cand(c, k) == LET all == Ins(c) IN IF Cardinality(all) = 0 THEN {} ELSE RandomSubset(Min2(k, Cardinality(all)), all)
Init == s = VInit /\ hist = << >> /\ ok = TRUE /\ fin = FALSE

(* What a step may change: the register written (and the one moved from or  *)
(* swapped with), and memory only through a view of it or by the caller.    *)
Frame(a, w, b) ==
  LET e == VStep(a, w)
      regs == {w[2]} \cup (IF w[1] \in {2, 4, 13} THEN {w[3]} ELSE {})
      cells == IF w[1] = 24 THEN {w[3]}
               ELSE IF w[2] \in VRegs /\ VIsView(w[2]) /\ Live(a, w[2]) /\ w[1] \notin {2, 3, 4, 23, 27, 29}
               THEN VReg(a, w[2]).off..(VReg(a, w[2]).off + VN(a, w[2]) - 1) ELSE {}
  IN /\ e.err # {0} => b = a
     /\ \A p \in VRegs : p \in regs \/ b.reg[p + 1] = a.reg[p + 1]
     /\ \A k \in 1..MemLen : k \in cells \/ b.mem[k] = a.mem[k]
     \* writing through a view never moves it; lengths of fixed ones never change
     /\ \A p \in VRegs : (VFixed(p) /\ Live(b, p)) => VN(b, p) = 3
     /\ \A p \in VRegs : (VIsView(p) /\ w[1] \notin {2, 3, 4, 23, 27, 29}) => b.reg[p + 1] = a.reg[p + 1]
Step(w) == /\ VPre(s, w)
           /\ s' = VStep(s, w).s
           /\ hist' = Append(hist, w)
           /\ ok' = Frame(s, w, s')
           /\ fin' = FALSE
\* the last step closes the behaviour, which is then exported (once)
Next == \/ /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<s, hist, ok>>
        \/ /\ Len(hist) < Depth
           /\ \E c \in RandomSubset(4, VCodes) : \E w \in Cand(c, 14) :
                /\ VPre(s, w)
                /\ Weight(c, w) \/ (Focus = 8 /\ RandomElement(1..6) = 1)
                /\ Step(w)
FrameOK == ok
TypeOK == \A p \in VRegs : LET g == VReg(s, p) IN
            /\ g.st \in 0..2
            /\ VIsView(p) => g.d = << >> /\ g.st # 1
            /\ ~VIsView(p) => Len(g.d) = g.n
            /\ (VIsView(p) /\ Live(s, p) /\ g.n > 0) => g.off \in ViewCells /\ g.off + g.n - 1 \in ViewCells
Export == fin =>
            Serialize(ToJson([op |-> "vhist", prog |-> hist]) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* exhaustive small scope: every instruction from the initial state, then every
\* assignment or in-place operation
ExNext == \/ Len(hist) = 0 /\ \E c \in VCodes : \E w \in Ins(c) : VPre(s, w) /\ Step(w)
          \/ Len(hist) = 1 /\ \E c \in Second : \E w \in Ins(c) : VPre(s, w) /\ Step(w)
=============================================================================
