----------------------------- MODULE MC_MStoreC -----------------------------
(* Covering histories of MC_MStore: every class of steps (operation,            *)
(* destination, operand, outcome) that can be reached is taken at least     *)
(* once, in whatever state the steps before it have left behind.  When no   *)
(* instance of the wanted class is possible a preparing step (resize,       *)
(* construct, rebind a view) is looked for; failing that the history is     *)
(* exported and the class is tried again from the initial state.            *)
EXTENDS MC_MStore

LOCAL SE == INSTANCE SequencesExt
CONSTANTS Chains, Rounds
VARIABLES k, end
cvars == <<s, hist, ok, fin, k, end>>

\* what a step did: 0 kept the destination's shape, 1 refused, 2 changed the shape only, 3 the number of elements
CShape(t, p) == IF p \in MRegs THEN <<MReg(t, p).r, MReg(t, p).c>> ELSE 0
Outcome(t, w) == LET e == MStep(t, w) IN IF e.err # {0} THEN 1 ELSE IF w[2] \in MRegs /\ CShape(e.s, w[2]) # CShape(t, w[2]) THEN (IF MCells(e.s, w[2]) = MCells(t, w[2]) THEN 2 ELSE 3) ELSE 0
ClassOf(w) == <<w[1], w[2], IF w[1] \in {23, 24} THEN 0 ELSE w[3]>>
InsOf == [c \in MCodes |-> Ins(c)]
View6(cl) == cl[1] \in {23, 24} \/ MIsView(cl[2]) \/ (cl[1] \in MReads /\ MIsView(cl[3]))
CBase == UNION {{ClassOf(w) : w \in InsOf[c]} : c \in MCodes}
InBase == [b \in CBase |-> {w \in InsOf[b[1]] : ClassOf(w) = b}]
Wanted == {b \o <<o>> : b \in {x \in CBase : Focus = 8 \/ (Focus = 6) = View6(x)}, o \in (IF Focus = 8 THEN {1} ELSE {0, 2, 3})}
COrder == SE!SetToSeq(Wanted)
NClass == Len(COrder)
CClass(i) == COrder[((i * 7919) % NClass) + 1]
CInst(t, cl) == {w \in InBase[SubSeq(cl, 1, 3)] : MPre(t, w) /\ Outcome(t, w) = cl[4]}
\* steps after which the class is possible
Prep == UNION {InsOf[c] : c \in {3, 5, 6, 21, 22, 23, 1, 19} \cap MCodes}
PrepOf == [p \in MRegs |-> {w \in Prep : w[2] = p}]
CAdj(t, cl) == LET ps == {cl[2], cl[3]} \cap MRegs
                  all == UNION {PrepOf[p] : p \in ps}
              IN {w \in RandomSubset(Min2(120, Cardinality(all)), all) : MPre(t, w) /\ MStep(t, w).err = {0} /\ CInst(MStep(t, w).s, cl) # {}}
CPer == (NClass * Rounds) \div Chains + 1
CInit == /\ s = MInit /\ hist = << >> /\ ok = TRUE /\ fin = FALSE
         /\ k \in {c * CPer : c \in 0..(Chains - 1)}
         /\ end = k + CPer
CTake(w) == /\ s' = MStep(s, w).s
           /\ hist' = Append(hist, w)
           /\ ok' = Frame(s, w, s')
           /\ end' = end
CClose == fin' = TRUE /\ UNCHANGED <<s, hist, ok, k, end>>
CNext == \/ /\ fin /\ k < end
            /\ s' = MInit /\ hist' = << >> /\ ok' = TRUE /\ fin' = FALSE /\ UNCHANGED <<k, end>>
         \/ /\ ~fin /\ hist # << >> /\ (k = end \/ Len(hist) >= Depth) /\ CClose
         \/ /\ ~fin /\ k < end /\ Len(hist) < Depth
            /\ \E cl \in {CClass(k)} : \E J \in {CInst(s, cl)} :
                 IF J # {}
                 THEN \E w \in {RandomElement(J)} : CTake(w) /\ k' = k + 1 /\ fin' = FALSE
                 ELSE \E A \in {CAdj(s, cl)} :
                        IF A # {}
                        THEN \E w \in {RandomElement(A)} : CTake(w) /\ k' = k /\ fin' = FALSE
                        ELSE IF hist # << >> THEN CClose
                        ELSE k' = k + 1 /\ UNCHANGED <<s, hist, ok, fin, end>>
=============================================================================
