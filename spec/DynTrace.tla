------------------------------ MODULE DynTrace ------------------------------
(* Recorded histories of real dynamic messages, re-enacted operation by     *)
(* operation.                                                               *)
EXTENDS Dyn, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, s, ok
vars == <<i, j, s, ok>>
Init == i \in 1..Len(Trace) /\ j = 0 /\ s = Trace[i].a /\ ok = TRUE
Next == /\ ok /\ j < Len(Trace[i].ev)
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Trace[i].ev[j + 1]
               r == Apply(Trace[i].ty, s, Trace[i].bt, Trace[i].b, e.op)
           IN s' = r[2] /\ ok' = (r[1] = e.ret /\ View(Trace[i].ty, r[2]) = e.post /\ e.res = 1)
Spec == Init /\ [][Next]_vars
Typed == TypeOK(Trace[i].ty, s)
Conforms == ok
=============================================================================
