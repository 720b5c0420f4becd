----------------------------- MODULE AnyTrace ------------------------------
(* Recorded histories of two real Any messages, re-enacted step by step.    *)
EXTENDS Any, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, s, ok
vars == <<i, j, s, ok>>
Init == i \in 1..Len(Trace) /\ j = 0 /\ s = <<Empty, Empty>> /\ ok = TRUE
Next == /\ ok /\ j < Len(Trace[i].ev)
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Trace[i].ev[j + 1]
               h == e.op[2]
           IN IF e.op[1] = "pack"
              THEN /\ s' = e.post
                   /\ ok' = (e.ret = <<1>> /\ Packed(e.post[h], e.op[3], e.op[4])
                             /\ e.post = [s EXCEPT ![h][1] = e.post[h][1], ![h][2] = e.post[h][2]])
              ELSE LET r == Apply(s, e.op, Trace[i].keep) IN s' = r[2] /\ ok' = (e.ret = r[1] /\ r[2] = e.post)
Spec == Init /\ [][Next]_vars
Conforms == ok
(* what was packed last is what is unpacked *)
Faithful == ok /\ j > 0 /\ Trace[i].ev[j].op[1] = "pack" =>
              LET o == Trace[i].ev[j].op IN Unpack(s[o[2]], o[3], TRUE) = <<1, o[4]>>
=============================================================================
