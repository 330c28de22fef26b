------------------------------ MODULE CmlRand -------------------------------
(* Random draws and named constants.  A draw may have any value of the      *)
(* documented set, so the specification is a set of allowed results; the    *)
(* outcomes seen over all draws of a call are one more observation.         *)
EXTENDS CmlTypes

RandOps == {"rvec", "rmat", "rint", "rbin", "rreal", "runit1", "ruvec", "rcone", "gvec", "gmat"}
Slack(k) == CASE k = "f" -> 80 [] k = "d" -> 3 [] OTHER -> 0
\* lo <= o <= hi, for bounds over a common denominator
Within(o, k, lo, hi, den) == /\ Finite(o)
                             /\ LET a == Fix(lo, den) IN o[1] > a[1] \/ (o[1] = a[1] /\ o[2] >= a[2] - Slack(k)) \/ Close(o, a, Slack(k))
                             /\ LET b == Fix(hi, den) IN o[1] < b[1] \/ (o[1] = b[1] /\ o[2] <= b[2] + Slack(k)) \/ Close(o, b, Slack(k))
Ints(v, lo, hi) == v = [j \in 1..(hi - lo + 1) |-> <<lo + j - 1, 0>>]
USlack(k) == IF k = "f" THEN 1500 ELSE 15
\* unit length, in millionths
LenSq6(v) == SumSeq([j \in 1..Len(v) |-> MMul(Micro(v[j]), Micro(v[j]))])
IsUnitObs(v, k) == (\A j \in 1..Len(v) : v[j][1] \in -2..1) /\ Abs(LenSq6(v) - Million) <= USlack(k)
\* component along d/den, in millionths
AlongD(v, d, den) == SumSeq([j \in 1..Len(v) |-> (Micro(v[j]) \div den) * d[j] + ((Micro(v[j]) % den) * d[j]) \div den])
RandPre(e) == CASE e.op = "rcone" -> Pyth(e.p, e.s, e.q) /\ e.p >= 0 /\ e.s > 0 /\ LenSq(e.d) = e.den * e.den /\ e.den < 200
                [] e.op \in {"rvec", "rmat", "rint", "rreal"} -> e.lo <= e.hi
                [] OTHER -> TRUE
RandAccept(e, o) ==
  CASE e.op \in {"rvec", "rmat", "rint", "rreal"} ->
         IF o.k = "set" THEN Ints(o.v, e.lo, e.hi)
         ELSE /\ Len(o.v) = (CASE e.op = "rvec" -> e.n [] e.op = "rmat" -> 6 [] OTHER -> 1)
              /\ \A j \in 1..Len(o.v) : Within(o.v[j], o.k, e.lo, e.hi, e.den)
    [] e.op = "rbin" -> o.v = IF o.k = "bin" THEN <<<<0, 0>>, <<1, 0>>>> ELSE <<<<-1, 0>>, <<1, 0>>>>
    [] e.op = "runit1" -> Len(o.v) = 1 /\ Within(o.v[1], "d", 0, 1, 1)
    [] e.op = "ruvec" -> IF o.k = "signs" THEN Len(o.v) = 2 * e.n /\ \A j \in 1..Len(o.v) : o.v[j] = <<1, 0>>
                         ELSE Len(o.v) = e.n /\ IsUnitObs(o.v, o.k)
    \* draws lie in the cone, and some draw lies outside the inner half of it
    [] e.op = "rcone" ->
         LET c == Fix(e.p, e.q)  cosA == c[1] * Million + c[2] IN
         IF o.k \in {"lowf", "lowd"} THEN o.v[1][1] \in -2..1 /\ LET m == Micro(o.v[1]) IN Abs(m) <= 1100000 /\ (Len(e.d) = 1 \/ 2 * MMul(m, m) - Million <= cosA + 100)
         ELSE Len(o.v) = Len(e.d) /\ IsUnitObs(o.v, o.k) /\ AlongD(o.v, e.d, e.den) >= cosA - USlack(o.k) - 8
    [] e.op = "gvec" -> o.v = [j \in 1..e.n |-> IF o.k = "axis" /\ j = e.i + 1 THEN <<1, 0>> ELSE <<0, 0>>]
    [] e.op = "gmat" -> o.v = [j \in 1..(e.r * e.c) |-> IF o.k = "iden" /\ ((j - 1) \div e.c) = ((j - 1) % e.c) THEN <<1, 0>> ELSE <<0, 0>>]
=============================================================================
