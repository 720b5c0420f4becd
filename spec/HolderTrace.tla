---------------------------- MODULE HolderTrace ----------------------------
(* Recorded histories of real holders, re-enacted with the same machine.    *)
EXTENDS Holder, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, s, ok
vars == <<i, j, s, ok>>
Init == i \in 1..Len(Trace) /\ j = 0 /\ s = [k \in 1..3 |-> Trace[i].init] /\ ok = TRUE
Next == /\ ok /\ j < Len(Trace[i].ev)
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Trace[i].ev[j + 1]
               f == Trace[i].fam
           IN IF Enabled(f, s, e.op)
              THEN LET r == Apply(f, s, e.op) IN s' = r[2] /\ ok' = (r[1] = e.ret /\ r[2] = e.post /\ e.res = 1)
              ELSE s' = s /\ ok' = (e.ret = <<"skip">>)
Spec == Init /\ [][Next]_vars
Typed == TypeOK(Trace[i].fam, s)
Conforms == ok
=============================================================================
