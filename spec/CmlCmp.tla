------------------------------- MODULE CmlCmp -------------------------------
(* Comparison: lexicographic for vectors (a proper prefix is smaller) and   *)
(* for quaternions in storage order; matrices are equal when their shapes   *)
(* and elements are.  Hashes of equal vectors are equal.                    *)
EXTENDS CmlRand

CmpOps == {"vcmp", "vhash", "mcmp", "qcmp"}
Lex(a, b) == \E n \in 1..Len(b) : /\ \A j \in 1..(n - 1) : j <= Len(a) /\ a[j] = b[j]
                                  /\ (n = Len(a) + 1 \/ (n <= Len(a) /\ a[n] < b[n]))
Bool(p) == IF p THEN <<1, 0>> ELSE <<0, 0>>
Six(a, b) == <<Bool(a = b), Bool(a # b), Bool(Lex(a, b)), Bool(Lex(b, a)), Bool(~Lex(b, a)), Bool(~Lex(a, b))>>
\* w, x, y, z in storage order
Stored(q, k) == IF k = "wfirst" THEN q ELSE <<q[2], q[3], q[4], q[1]>>
MEq(e) == e.r = e.r2 /\ e.c = e.c2 /\ e.a = e.b
CmpAccept(e, o) ==
  CASE e.op = "vcmp" -> o.v = Six(e.a, e.b)
    [] e.op = "qcmp" -> o.v = Six(Stored(e.a, o.k), Stored(e.b, o.k))
    [] e.op = "mcmp" -> o.v = <<Bool(MEq(e)), Bool(~MEq(e)), Bool(MEq(e)), Bool(~MEq(e))>>
    [] e.op = "vhash" -> IF o.k = "set" THEN o.v = <<IF e.a = e.b THEN <<1, 0>> ELSE <<2, 0>>>>
                         ELSE Len(o.v) = 1 /\ (e.a = e.b \/ o.c = "again" => o.v[1] = <<1, 0>>)
=============================================================================
