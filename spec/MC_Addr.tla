------------------------------ MODULE MC_Addr ------------------------------
(* Small scope: 2x2 and 2x3 and 3x2 objects in every basis and layout, all  *)
(* programs of two writes.  Two objects of the same elements but different  *)
(* layout or basis keep the same elements under every element-level write   *)
(* (layout is invisible except in the raw cells), and each write changes    *)
(* exactly the elements it addresses.                                       *)
EXTENDS CmlAddr, Json, IOUtils, TLC, SequencesExt

Shapes == {<<2, 2>>, <<2, 3>>, <<3, 2>>}
Depth == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
V(n) == [k \in 1..12 |-> n + k - 1]
Ins(s, n) == {<<k, i, j>> \o V(n) : k \in {1, 2, 6, 16}, i \in 0..2, j \in 0..2}
        \cup {<<k, i, 0>> \o V(n) : k \in {4, 14, 7}, i \in 0..(s.r * s.c - 1)}
        \cup {<<k, 0, j>> \o V(n) : k \in {5, 15}, j \in 0..(s.c - 1)}
        \cup {<<k, i, 1 - i>> \o V(n) : k \in {22, 23}, i \in 0..1}
        \cup {<<k, 0, 0>> \o V(n) : k \in {20, 30, 32}}
Legal(s, n) == {w \in Ins(s, n) : WritePre(s, w)}
Base(r, c) == [n \in 1..(r * c) |-> 10 + n]

VARIABLES s, t, last
vars == <<s, t, last>>
Init == \E sh \in Shapes, b \in {0, 1}, l \in {0, 1} :
          /\ s = FromRows(sh[1], sh[2], b, l, Base(sh[1], sh[2]))
          /\ t = FromRows(sh[1], sh[2], b, 1 - l, Base(sh[1], sh[2]))
          /\ last = << >>
Next == /\ Len(last) < Depth
        /\ \E w \in Legal(s, 20 + 10 * Len(last)) :
             /\ w[1] # 7
             /\ s' = DoWrite(s, w)
             /\ t' = DoWrite(t, w)
             /\ last' = Append(last, w)
TypeOK == Len(s.d) = s.r * s.c /\ Len(t.d) = t.r * t.c
\* the two layouts always show the same elements
Bijective == /\ Elems(s) = Elems(t)
             /\ {Cell(s, i, j) : i \in 0..(s.r - 1), j \in 0..(s.c - 1)} = 1..(s.r * s.c)
ListOrder == FromRows(s.r, s.c, s.bas, s.lay, Elems(s)) = s
Touched(w) == CASE w[1] \in {1, 2, 3, 11} -> {<<w[2], w[3]>>}
                [] w[1] \in {4, 14, 22} -> {<<w[2], j>> : j \in 0..(s.c - 1)}
                [] w[1] \in {5, 15, 23} -> {<<i, w[3]>> : i \in 0..(s.r - 1)}
                [] w[1] \in {6, 16} -> IF s.bas = 1 THEN {<<w[2], w[3]>>} ELSE {<<w[3], w[2]>>}
                [] OTHER -> (0..(s.r - 1)) \X (0..(s.c - 1))
Frame == [][\A i \in 0..(s.r - 1), j \in 0..(s.c - 1) : <<i, j>> \in Touched(last'[Len(last')]) \/ ElAt(s', i, j) = ElAt(s, i, j)]_vars

\* all one-write programs and a fixed share of the two-write programs run on the implementation
Progs(z) == LET one == Legal(z, 20)
            IN {<<w>> : w \in one}
               \cup {<<w, x>> : w \in one, x \in Legal(z, 30)}
Pick(p) == Len(p) = 1 \/ (p[1][1] * 31 + p[1][2] * 7 + p[1][3] * 3 + p[2][1] * 17 + p[2][2] * 5 + p[2][3] * 11) % (IF IOEnv.TIER = "thorough" THEN 7 ELSE 41) = 0
Calls == UNION {UNION {{[op |-> "addr", r |-> sh[1], c |-> sh[2], bas |-> b, lay |-> l, ctor |-> 0, a |-> Base(sh[1], sh[2]), prog |-> p, resz |-> 0] :
            p \in {q \in Progs(FromRows(sh[1], sh[2], b, l, Base(sh[1], sh[2]))) : Pick(q)}} : b \in {0, 1}, l \in {0, 1}} : sh \in Shapes}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
