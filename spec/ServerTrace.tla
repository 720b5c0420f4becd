----------------------------- MODULE ServerTrace -----------------------------
(* Recorded calls: what the stream and the handler saw in every event is    *)
(* what the specification says they see.                                    *)
EXTENDS Server, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, s
vars == <<i, j, s>>
H == Trace[i].ev
Init == i \in 1..Len(Trace) /\ j = 1 /\ s = Start(Trace[i].k, Trace[i].full)
Next == j <= Len(H) /\ Trace[i].op = "call" /\ s' = Apply(s, H[j]).s /\ j' = j + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
Correct == (Trace[i].op = "call" /\ j <= Len(H)) => Enabled(s, H[j])     \* the driver's own doing
Conforms == (Trace[i].op = "call" /\ j <= Len(H)) => Apply(s, H[j]).log = H[j].log
(* two events at the same time: as in one of the two orders *)
RECURSIVE All(_, _)
All(x, vs) == IF vs = <<>> THEN x ELSE All(Apply(x, Head(vs)).s, Tail(vs))
Races == Trace[i].op = "race" =>
           LET t == Trace[i]
               z == All(Start(t.k, t.full), t.ev)
               p == All(z, <<t.a, t.b>>)
               q == All(z, <<t.b, t.a>>)
           IN /\ p.fin /\ q.fin => t.min = 1 /\ t.max = 1
              /\ ~p.fin /\ ~q.fin => t.max = 0
              /\ t.max <= 1
=============================================================================
