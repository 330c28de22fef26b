------------------------------ MODULE MC_Alloc ------------------------------
(* Histories of the allocator state machine, with a failing allocation      *)
(* here and there.  The model takes both outcomes of a step that may fail;  *)
(* the library takes one of them and is then followed.                      *)
EXTENDS CmlAlloc, Json, IOUtils, TLC, Randomization

CONSTANTS Depth, Faults
VARIABLES s, hist, ok, fin
vars == <<s, hist, ok, fin>>

XS == {<<a, b, a + 5, b - 9, 2 * a, 3>> : a \in {-7, 3, 0}, b \in {1, 12}}
Sz == {-1, 0, 1, 2, 2, 3, 4, 6}
\* a register of the kind that code c wants in each place: "v", "m" or either like p
Vs == 0..4
Ms == 5..9
Regs(c, p) == CASE c = 14 -> <<AProd, AProd>> [] c = 15 -> <<Ms, Vs>> [] c = 16 -> <<Vs, Ms>> [] c = 17 -> <<Vs, Vs>> [] c = 25 -> <<Ms, Ms>>
                [] OTHER -> (IF AIsM(p) THEN <<Ms, Ms>> ELSE <<Vs, Vs>>)
Dest(c) == CASE c \in {10, 14, 17, 18, 19} -> Ms [] c \in {15, 16, 22, 23} -> Vs [] OTHER -> ARegs
Pick(S) == RandomElement(S)
\* random instructions of code c on register p; each choice is made once
Gens(c, p) ==
  {<<c, pq[1], pq[2], r, a, b, k>> \o x :
     pq \in {IF c \in {2, 4, 20} THEN Pick(ASame) ELSE <<p, Pick(Regs(c, p)[1])>>},
     r \in {IF c = 9 /\ AIsM(p) THEN Pick(1..6) ELSE IF c = 10 THEN Pick({1, 2, 4, 6}) ELSE Pick(Regs(c, p)[2])},
     a \in {IF c = 8 \/ (c = 9 /\ ~AIsM(p)) THEN Pick(1..6) ELSE IF c \in {22, 25} THEN Pick(0..4) ELSE Pick(Sz)},
     b \in {Pick(Sz)}, k \in {Pick(IF Faults THEN {0, 1, 2, 3} ELSE {0})}, x \in {Pick(XS)}}
\* often, make the sizes fit
Fit(w) == LET g == AReg(s, w[2]) IN
  IF RandomElement(1..4) = 1 THEN w
  ELSE IF w[1] = 8 /\ AIsM(w[2]) /\ g.st = 0 /\ g.r * g.c \in 1..6 THEN [w EXCEPT ![5] = g.r * g.c]
  ELSE IF w[1] \in {9, 10} /\ AIsM(w[2]) /\ w[4] \in {2, 4, 6} THEN [w EXCEPT ![5] = w[4] \div 2, ![6] = 2]
  ELSE w
Init == s = AInit /\ hist = << >> /\ ok = TRUE /\ fin = FALSE
ATypeOK(t) == \A p \in ARegs : LET g == AReg(t, p) IN g.st \in 0..1 /\ g.r >= 0 /\ g.c >= 0 /\ Len(g.d) = g.r * g.c /\ (~AIsM(p) => g.c = 1)
Touch(w) == {w[2]} \cup (IF w[1] \in {2, 4, 20, 24} THEN {w[3]} ELSE {})
\* a failure changes nothing (but moved-from operands); a step changes its destination only
Frame(t, w) == LET e == AStep(t, w) IN
  /\ e.err # 0 => e.s = e.f
  /\ \A p \in ARegs : (p \notin Touch(w) => AReg(e.s, p) = AReg(t, p)) /\ (AReg(e.f, p) = AReg(t, p) \/ (w[1] = 24 /\ p = w[3] /\ AReg(e.f, p) = [AReg(t, p) EXCEPT !.st = 1]))
  /\ w[1] = 18 => AStep(e.s, w).s = t
  /\ w[1] = 20 => AStep(e.s, w).s = t
Bound(t) == \A p \in ARegs : \A k \in 1..Len(AReg(t, p).d) : Abs(AReg(t, p).d[k]) <= 100000000
Next == \/ /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<s, hist, ok>>
        \/ /\ Len(hist) < Depth
           /\ \E c \in RandomSubset(6, ACodes) : \E p \in {Pick(Dest(c))} : \E v \in Gens(c, p) : \E w \in {Fit(v)} : LET e == AStep(s, w) IN
                /\ e.err # 0 \/ e.s # s \/ c = 25
                /\ Bound(e.s)
                /\ hist' = Append(hist, w)
                /\ ok' = Frame(s, w)
                /\ s' \in (IF w[7] = 0 THEN {e.s} ELSE {e.s, e.f})
                /\ fin' = FALSE
FrameOK == ok
TypeOK == ATypeOK(s)
Put(x) == Serialize(ToJson(x) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* the choice of an allocator for a result, for every pair
PickInit == s = AInit /\ hist \in {[op |-> "apick", a |-> a, b |-> b] : a \in 0..2, b \in 0..2} /\ ok = TRUE /\ fin = FALSE
PickNext == FALSE /\ UNCHANGED vars
PickOK == APick(hist.a, hist.b) = APick(hist.b, hist.a) /\ (hist.b = 0 => APick(hist.a, hist.b) = hist.a)
PickExport == Put(hist)
Export == fin => Put([op |-> "ahist", prog |-> hist])
=============================================================================
