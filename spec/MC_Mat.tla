------------------------------- MODULE MC_Mat -------------------------------
(* Small scope: products of all 2x2 matrices over three values, all 3x3     *)
(* matrices of zeros and ones: the laws of linear algebra hold of the       *)
(* specification, and the matrices are run on the implementation.           *)
EXTENDS CmlMat, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
E2 == [1..4 -> {-1, 0, 1}]
E3 == [1..9 -> {0, 1}]
M2(x) == Mat(2, 2, x)
M3(x) == Mat(3, 3, x)
VARIABLES a, b
Pair == a \in E2 /\ b \in E2
One == a \in E3 /\ b = << >>
Init == Pair \/ One
\* row operations: exchange of two rows, addition of one to another
Swap(x) == SubSeq(x, 4, 6) \o SubSeq(x, 1, 3) \o SubSeq(x, 7, 9)
AddRow(x) == SubSeq(x, 1, 3) \o EAdd(SubSeq(x, 1, 3), SubSeq(x, 4, 6)) \o SubSeq(x, 7, 9)
Next == UNCHANGED <<a, b>>
Laws2 == b # << >> =>
  /\ Det(MatMul(M2(a), M2(b))) = Det(M2(a)) * Det(M2(b))
  /\ Transpose(MatMul(M2(a), M2(b))) = MatMul(Transpose(M2(b)), Transpose(M2(a)))
  /\ TraceOf(MatMul(M2(a), M2(b))) = TraceOf(MatMul(M2(b), M2(a)))
  /\ VecMat(<<1, 2>>, M2(a)) = MatVec(Transpose(M2(a)), <<1, 2>>)
  /\ MatVec(MatMul(M2(a), M2(b)), <<1, 2>>) = MatVec(M2(a), MatVec(M2(b), <<1, 2>>))
Laws3 == b = << >> =>
  /\ Det(Transpose(M3(a))) = Det(M3(a)) /\ Det(M3(Swap(a))) = -Det(M3(a)) /\ Det(M3(AddRow(a))) = Det(M3(a))
  /\ MatMul(M3(a), Adj(M3(a))).m = [n \in 1..9 |-> IF n \in {1, 5, 9} THEN Det(M3(a)) ELSE 0]
  /\ LUable(M3(a)) => \A i \in 1..3, j \in 1..3 :
       REq(RSumSeq([k \in 1..Min2(i, j) |-> RMul(IF k = i THEN <<1, 1>> ELSE LUAt(M3(a), i, k), LUAt(M3(a), k, j))]), I(At(M3(a), i, j)))
  /\ Det(M3(a)) # 0 => LET s == Solve(M3(a), <<1, 2, 4>>) IN
       \A i \in 1..3 : REq(RSumSeq([k \in 1..3 |-> RMul(I(At(M3(a), i, k)), s[k])]), I(<<1, 2, 4>>[i]))
B == [den |-> 1, wide |-> 0]
D2 == [r |-> 2, c |-> 2, pow |-> 0] @@ B
D3 == [r |-> 3, c |-> 3, pow |-> 0] @@ B
F2 == IF Deep THEN [1..4 -> {-2, -1, 0, 1, 3}] ELSE [1..4 -> {-1, 0, 2}]
Some(x) == Deep \/ (x[1] + 3 * x[2] + 5 * x[3] + 7 * x[4]) % 5 = 0
Inv2 == {x \in F2 : Det(M2(x)) # 0}
Inv3 == {x \in E3 : Det(M3(x)) # 0}
ProdCalls == {[op |-> o, r |-> 2, k |-> 2, c |-> 2, a |-> z[1], b |-> z[2]] @@ B : o \in {"mm", "mmself"}, z \in {w \in E2 \X E2 : Some(w[1]) /\ Some(w[2])}}
        \cup {[op |-> "mv", which |-> w, r |-> 2, k |-> 2, a |-> x, b |-> <<3, -5>>] @@ B : w \in {0, 1}, x \in E2}
InvCalls == {[op |-> "det", a |-> x] @@ D2 : x \in F2} \cup {[op |-> "det", a |-> x] @@ D3 : x \in E3}
       \cup {[op |-> "inverse", a |-> x] @@ D2 : x \in Inv2} \cup {[op |-> "inverse", a |-> x] @@ D3 : x \in Inv3}
       \cup {[op |-> o, r |-> 3, c |-> 3, a |-> x] @@ B : o \in {"transpose", "trace"}, x \in {<<1, 2, 3, 4, 5, 6, 7, 8, 9>>}}
LuCalls == {[op |-> "lup", a |-> x] @@ D2 : x \in Inv2} \cup {[op |-> "lup", a |-> x] @@ D3 : x \in Inv3}
      \cup {[op |-> "lu", a |-> x] @@ D2 : x \in {y \in Inv2 : LUable(M2(y))}} \cup {[op |-> "lu", a |-> x] @@ D3 : x \in {y \in Inv3 : LUable(M3(y))}}
      \cup {[op |-> "lusolve", which |-> 1, a |-> x, b |-> <<1, -2, 4>>] @@ D3 : x \in Inv3}
      \cup {[op |-> "lusolve", which |-> 0, a |-> x, b |-> <<1, -2, 4>>] @@ D3 : x \in {y \in Inv3 : LUable(M3(y))}}
      \cup {[op |-> "lusolve", which |-> 1, a |-> x, b |-> <<7, -2>>] @@ D2 : x \in Inv2}
      \cup {[op |-> o, a |-> x] @@ D3 : o \in {"lup", "lusing"}, x \in {y \in E3 : Det(M3(y)) = 0}}
Calls == CASE IOEnv.WHAT = "prod" -> ProdCalls [] IOEnv.WHAT = "inv" -> InvCalls [] OTHER -> LuCalls
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
