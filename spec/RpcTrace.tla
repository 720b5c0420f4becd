------------------------------ MODULE RpcTrace ------------------------------
(* Recorded calls: both sides saw what the specification says, the client's *)
(* end of it exactly once.                                                  *)
EXTENDS Rpc, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE i
Init == i \in 1..Len(Trace)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
T == Trace[i]
Want == Reported(Outcome(T.p), T.mode)
Once == Len(T.stats) = 1
\* which error call() reports for a reply that cannot be decoded is gRPC's choice
SameStatus == IF T.mode = "c" /\ Outcome(T.p).got = <<-1>> THEN T.stats[1] # 0 ELSE T.stats[1] = Want.stat
SameReplies == T.got = Want.got
SameRequests == T.sgot = Want.sgot
SameWrites == Streams(T.p.k) => Len(T.wres) <= Len(T.p.reqs) /\ T.wres = SubSeq(Written(T.p), 1, Len(T.wres))
ServerOver == T.over = 1 /\ T.handlers = (IF T.p.absent \/ (~Streams(T.p.k) /\ T.p.reqs[1] = 0) THEN 0 ELSE 1)
=============================================================================
