----------------------------- MODULE TraceCalls -----------------------------
(* Trace validation: the calls executed by the implementation, in order.    *)
(* The trace is cut into Chunks chains so that TLC's workers share it.      *)
EXTENDS CmlCalls, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 16
Size == (Len(Trace) + Chunks - 1) \div Chunks

VARIABLES chunk, l, ok
vars == <<chunk, l, ok>>

Judge(n) == \/ Accept(Trace[n])
            \/ PrintT(<<"REJECT", n, ToString(Explain(Trace[n]))>>) /\ FALSE

Init == /\ chunk \in 0..(Chunks - 1)
        /\ l = chunk * Size + 1
        /\ l <= Len(Trace)
        /\ ok = Judge(l)
Next == /\ l < (chunk + 1) * Size
        /\ l < Len(Trace)
        /\ l' = l + 1
        /\ ok' = Judge(l + 1)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
