------------------------------ MODULE MC_Trans ------------------------------
(* Small scope: affine maps of the plane and of space with small integer    *)
(* elements, built up by steps.  Composition is associative and agrees with *)
(* applying one after the other, a rigid inverse undoes its transform; the  *)
(* maps reached are run on the implementation.                              *)
EXTENDS CmlTrans, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
H(l, t) == [x \in 1..16 |-> LET i == ((x - 1) \div 4) + 1  j == ((x - 1) % 4) + 1 IN
              IF i <= 3 /\ j <= 3 THEN l[(i - 1) * 3 + j] ELSE IF i <= 3 THEN t[i] ELSE IF j = 4 THEN 1 ELSE 0]
Id3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
O3 == <<0, 0, 0>>
Gens == { H(Id3, <<2, -3, 5>>), H(<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, O3), H(<<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<1, 0, 0>>),
          H(<<2, 0, 0, 0, -1, 0, 0, 0, 3>>, O3), H(<<1, 2, 0, 0, 1, -1, 0, 0, 1>>, <<0, 4, 0>>) }
Rigid == { H(Id3, <<2, -3, 5>>), H(<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, O3), H(<<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<1, 0, 0>>) }
M4(x) == Mat(4, 4, x)
Then(a, b) == MatMul(M4(b), M4(a)).m
VARIABLES m, n, rigid
Init == m = H(Id3, O3) /\ n = 0 /\ rigid \in BOOLEAN
Next == /\ n < 3 /\ n' = n + 1 /\ rigid' = rigid
        /\ \E g \in (IF rigid THEN Rigid ELSE Gens) : m' = Then(m, g)
Pt == <<2, -1, 3>>
App(x, v) == [i \in 1..3 |-> x[(i - 1) * 4 + 1] * v[1] + x[(i - 1) * 4 + 2] * v[2] + x[(i - 1) * 4 + 3] * v[3] + x[(i - 1) * 4 + 4]]
Affine == SubSeq(m, 13, 16) = <<0, 0, 0, 1>>
Compose == \A g \in Gens : /\ App(Then(m, g), Pt) = App(g, App(m, Pt))
                           /\ \A h \in Gens : Then(Then(m, g), h) = Then(m, Then(g, h))
                           /\ LET e == [op |-> "chain", a |-> m, m |-> g, b |-> Pt, den |-> 1] IN TransExpect(e) = [i \in 1..3 |-> <<App(Then(m, g), Pt)[i], 1>>]
Rot(x) == [k \in 1..9 |-> x[((k - 1) \div 3) * 4 + ((k - 1) % 3) + 1]]
Tr(x) == <<x[4], x[8], x[12]>>
Undo == rigid => LET e == [op |-> "rtinv", n |-> 3, rot |-> Rot(m), dr |-> 1, t |-> Tr(m)]
                     inv == [x \in 1..16 |-> RTInvEl(e, ((x - 1) \div 4) + 1, ((x - 1) % 4) + 1)]
                 IN TransPre(e) /\ (\A x \in 1..16 : inv[x][2] = 1) /\ MatMul(M4(m), M4([x \in 1..16 |-> inv[x][1]])) = Ident(4)
\* maps reached in two steps
Reach == LET one == Gens IN {Then(a, b) : a \in one, b \in one} \cup one
RReach == {Then(Then(a, b), c) : a \in Rigid, b \in Rigid, c \in Rigid}
Pre == <<11, -12, 13, -14, 15, 16, -17, 18, 19, -20, 21, 22, -23, 24, 25, 26>>
Vs == {<<2, -1, 3>>, <<1, 0, 0>>, <<0, 0, -4>>}
ApplyCalls == {[op |-> "chain", a |-> x, m |-> y, b |-> Pt, den |-> 1] : x \in Reach, y \in Gens}
         \cup {[op |-> o, dim |-> 3, a |-> x, b |-> v, den |-> 1] : o \in {"tvec", "tpt"}, x \in Reach, v \in Vs}
         \cup {[op |-> o, dim |-> 2, a |-> x, b |-> v, den |-> 1] : o \in {"tvec", "tpt"}, x \in Reach, v \in {<<2, -3>>, <<0, 1>>}}
         \cup {[op |-> "concat", n |-> 4, a |-> x, b |-> y, den |-> 1] : x \in Reach, y \in Gens}
         \cup {[op |-> "rtinv", n |-> 3, rot |-> Rot(x), dr |-> 1, t |-> Tr(x)] : x \in RReach}
         \cup {[op |-> "rtinv", n |-> 2, rot |-> r, dr |-> 1, t |-> t] : r \in {<<0, -1, 1, 0>>, <<-1, 0, 0, -1>>, <<0, 1, 1, 0>>}, t \in {<<2, -3>>, <<0, 1>>}}
         \cup {[op |-> "tvec4", a |-> x, b |-> v, den |-> 1] : x \in Gens \cup {Pre}, v \in {<<1, 2, 3, 4>>, <<0, 0, 0, 1>>, <<0, -1, 0, 0>>}}
PartCalls == {[op |-> o, dim |-> d, a |-> Pre, b |-> SubSeq(v, 1, d), den |-> 1] : o \in {"tset", "tmake"}, d \in {2, 3}, v \in Vs}
        \cup {[op |-> "scale", dim |-> d, a |-> Pre, b |-> SubSeq(v, 1, d), inv |-> 0, den |-> 1] : d \in {2, 3}, v \in Vs}
        \cup {[op |-> "bset", dim |-> d, i |-> i, tr |-> t, a |-> Pre, b |-> SubSeq(<<7, -8, 9>>, 1, d), den |-> 1] : d \in {2, 3}, i \in 0..1, t \in {0, 1}}
        \cup {[op |-> "bget", dim |-> d, i |-> i, tr |-> t, a |-> Pre] : d \in {2, 3}, i \in 0..1, t \in {0, 1}}
        \cup {[op |-> "linear", a |-> Pre, l |-> Rot(x), den |-> 1] : x \in Reach}
        \cup {[op |-> "affine2", a |-> Pre, l |-> Rot(x), t |-> Tr(x), den |-> 1] : x \in Reach}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(IF IOEnv.WHAT = "parts" THEN PartCalls ELSE ApplyCalls))
=============================================================================
