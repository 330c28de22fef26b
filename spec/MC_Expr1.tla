------------------------------ MODULE MC_Expr1 -----------------------------
(* The trees of one operation over every way of passing an operand.  In     *)
(* the quick tier a share of the binary ones is taken.                      *)
EXTENDS MC_Expr
TreesFor == {t \in One \cup Two : Modest(t)}
Pick(t) == Len(t.kids) # 1 \/ Tier = 1 \/ t.kids[1].k = "q" \/ (Hash(t) + Seed) % 2 = 0
Init1 == /\ cfg \in (IF Tier = 1 THEN {1, 2, 4, 7} ELSE {(Seed * 3) % 4, 4 + (Seed % 4)})
         /\ env = <<EnvOf(Seed), EnvOf(Seed + 3)>>
         /\ \E t \in TreesFor : /\ Pick(t) /\ Fits(t) /\ (Hash(t) \div 7) % 2 = cfg \div 4
                             /\ st = <<[t |-> t, v |-> StepVal(t, [k \in 1..Len(t.kids) |-> LeafVal(t.kids[k])])]>>
         /\ ops = 1 /\ ids = 0 /\ fin = TRUE
Next1 == UNCHANGED vars
Export1 == Serialize(ToJson(Program(Top.t, env, cfg, Hash(Top.t) % 3)) \o "\n", IOEnv.OUT,
                      [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
