---------------------------- MODULE FlatMapTrace ----------------------------
(* Recorded histories of real maps: every result and every state read back  *)
(* from the implementation is one the dictionary allows.                    *)
EXTENDS FlatMap, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, m, ok
vars == <<i, j, m, ok>>
Ev(a, b) == Trace[a].ev[b]
Init == i \in 1..Len(Trace) /\ j = 0 /\ m = Trace[i].init /\ ok = TRUE
Next == /\ ok /\ j < Len(Trace[i].ev)
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Ev(i, j + 1) IN
             IF \E r \in Apply(m, e.op) : r[1] = e.ret /\ r[2] = e.post
             THEN ok' = (e.res = 1) /\ m' = e.post
             ELSE ok' = FALSE /\ m' = m
Spec == Init /\ [][Next]_vars
IsDictionary == IsMap(m)
Conforms == ok
=============================================================================
