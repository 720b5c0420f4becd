----------------------------- MODULE ExtTrace ------------------------------
(* Recorded histories of two real host messages, re-enacted step by step.   *)
EXTENDS Ext, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, s, ok
vars == <<i, j, s, ok>>
Init == i \in 1..Len(Trace) /\ j = 0 /\ s = <<Empty, Empty>> /\ ok = TRUE
(* views compare their storage in order, which is not part of the state     *)
Judged(e) == CASE e.op[1] = "enc" -> e.ret[1] = 1 /\ Encodes(s[e.op[2]], e.ret[2])
               [] e.op[1] = "eq" /\ Trace[i].view -> e.ret[1] = 1 => s[e.op[2]] = s[e.op[3]]
               [] OTHER -> e.ret = Apply(s, e.op, Trace[i].keep)[1]
Next == /\ ok /\ j < Len(Trace[i].ev)
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Trace[i].ev[j + 1]
               r == Apply(s, e.op, Trace[i].keep)
           IN s' = r[2] /\ ok' = (Judged(e) /\ r[2] = e.post)
Spec == Init /\ [][Next]_vars
Typed == TypeOK(s)
Conforms == ok
=============================================================================
