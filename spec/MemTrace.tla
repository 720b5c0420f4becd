------------------------------ MODULE MemTrace ------------------------------
(* Where the parts of a decoded message live.  A memory resource is a set of *)
(* live blocks; the recorded log of the resource that was supplied is        *)
(* re-enacted event by event, first up to the end of the call, then up to    *)
(* the end of the message's life.                                            *)
(*   run   [ok, v, log, log2, after, parts]                                  *)
(*   event <<1, id, size>> taken, <<0, id, size>> given back                 *)
(*   part  <<region, block, offset, size, text>>, region 1 block of the      *)
(*         resource, 2 input, 3 the message object itself, 4 static storage, *)
(*         5 another resource, 0 anywhere else (stack, heap, temporaries)    *)
EXTENDS Wire, Json, IOUtils
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, r, p, live, phase
vars == <<i, r, p, live, phase>>
Ev == Trace[i]
R == Ev.runs[r]
View == Ev.tid \in {4, 6}
Log == IF phase = 1 THEN R.log ELSE R.log2
Init == /\ i \in 1..Len(Trace)
        /\ r \in 1..Len(Trace[i].runs)
        /\ p = 1 /\ phase = 1
        /\ live = <<>>
Take == /\ p <= Len(Log) /\ Log[p][1] = 1
        /\ Log[p][2] \notin DOMAIN live
        /\ live' = (Log[p][2] :> Log[p][3]) @@ live
        /\ p' = p + 1 /\ UNCHANGED <<i, r, phase>>
Give == /\ p <= Len(Log) /\ Log[p][1] = 0
        /\ Log[p][2] \in DOMAIN live /\ live[Log[p][2]] = Log[p][3]
        /\ live' = [x \in DOMAIN live \ {Log[p][2]} |-> live[x]]
        /\ p' = p + 1 /\ UNCHANGED <<i, r, phase>>
Return == /\ phase = 1 /\ p > Len(Log)
          /\ phase' = 2 /\ p' = 1 /\ UNCHANGED <<i, r, live>>
Done == phase = 2 /\ p > Len(Log)
Next == Take \/ Give \/ Return
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* every event of the log is one the resource allows                        *)
LogOK == Done \/ ENABLED Next
AtReturn == phase = 1 /\ p > Len(Log)
Inside(q) == q[2] \in DOMAIN live /\ q[3] + q[4] <= live[q[2]]
Lives(q) == \/ q[1] = 3
            \/ q[1] = 1 /\ Inside(q)
            \/ View /\ q[1] = 2
            \/ View /\ q[1] = 4
Resident == AtReturn => \A k \in 1..Len(R.parts) : Lives(R.parts[k])
(* an owning family shares nothing: texts and unknown fields never overlap  *)
Texts == { k \in 1..Len(R.parts) : R.parts[k][5] = 1 /\ R.parts[k][1] = 1 }
Disjoint == (AtReturn /\ ~View) =>
  \A a \in Texts : \A b \in Texts : a < b =>
     LET x == R.parts[a] y == R.parts[b]
     IN x[2] = y[2] => x[3] + x[4] <= y[3] \/ y[3] + y[4] <= x[3]
(* nothing is taken from or given back to the resource after the call       *)
Quiet == AtReturn => R.after = 0 /\ (R.ok = 1 => R.same = 1)
(* owners give everything back, views give nothing back                     *)
Balance == Done => IF View THEN R.log2 = <<>> ELSE live = <<>>
(* the value itself                                                         *)
ValueOK == AtReturn => LET s == Decode(Ev.ty, Ev.b, Ev.keep, 100)
                       IN IF s.status = "ok" THEN R.ok = 1 /\ R.v = Value(s) ELSE R.ok = 0
===========================================================================
