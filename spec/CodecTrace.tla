----------------------------- MODULE CodecTrace -----------------------------
(* Conformance: every recorded call of the library is re-enacted by the     *)
(* specification.  Each event is one behaviour:                             *)
(*   dec  the decoder machine runs on the recorded input and its final      *)
(*        state must explain every recorded outcome (all input forms)       *)
(*   enc  the recorded bytes of every output form are the encoder's, and    *)
(*        the decoder machine takes them back to the value                  *)
(*   mrg  the decoder machine runs on the concatenated encodings of both    *)
(*        messages; its value is Merge of both and is what merge() returned *)
EXTENDS Wire, Json, IOUtils
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, inp, s
vars == <<i, inp, s>>
Ev == Trace[i]
InputOf(ev) == CASE ev.op = "dec" -> ev.b
                 [] ev.op = "enl" -> EncMsg(ev.ty, ev.v)
                 [] ev.op = "enc" -> EncMsg(ev.ty, ev.rv)
                 [] ev.op = "mrg" -> EncMsg(ev.ty, ev.v) \o EncMsg(ev.ty, ev.w)
Keep(ev) == IF ev.op = "dec" THEN ev.keep ELSE TRUE
Lim(ev) == IF ev.op \in {"dec", "enl"} THEN ev.lim ELSE 100
Init == /\ i \in 1..Len(Trace)
        /\ inp = InputOf(Trace[i])
        /\ s = Start0(Trace[i].ty, inp)
Next == /\ s.status = "run"
        /\ s' = Step(inp, Keep(Ev), Lim(Ev), s)
        /\ UNCHANGED <<i, inp>>
Spec == Init /\ [][Next]_vars

(* invariants of the machine itself, on every step of every behaviour *)
MachineOK == s.status = "run" =>
   /\ Len(s.stk) <= Lim(Ev) + 1
   /\ s.pos >= 1 /\ s.pos <= Top(s).end + 1
   /\ \A j \in 2..Len(s.stk) : s.stk[j].end <= s.stk[j-1].end

DecodeAgrees ==
   (s.status # "run" /\ Ev.op = "dec") =>
     \A j \in 1..Len(Ev.res) :
        IF s.status = "ok" THEN Ev.res[j][1] = 1 /\ Ev.res[j][3] = Value(s) ELSE Ev.res[j][1] = 0
(* Encoding: every form of output received exactly the canonical bytes of   *)
(* the value (in the message's own map iteration order rv), every output    *)
(* that is too small was refused, and decoding the bytes restores the value *)
EncodeAgrees ==
   (s.status # "run" /\ Ev.op = "enc") =>
     /\ Ev.cv = Ev.v
     /\ IF Encodable(Ev.ty, Ev.v)
        THEN /\ Ev.rt[1] = 1 /\ Ev.rt[2] = Ev.v
             /\ \A j \in 1..Len(Ev.res) : Ev.res[j][1] = 7 \/ (Ev.res[j][1] = 1 /\ Ev.res[j][2] = inp)
        ELSE \A j \in 1..Len(Ev.res) : Ev.res[j][1] \in {0, 7}
RoundTrip ==
   (s.status # "run" /\ Ev.op = "enc") => IF Encodable(Ev.ty, Ev.v) THEN s.status = "ok" /\ Value(s) = Ev.v
                                         ELSE s.status = "bad"
(* ordered families iterate their maps by key *)
StableOrder ==
   (s.status # "run" /\ Ev.op = "enc" /\ Ev.tid \in {1,3,5,7}) => OrderedMaps(Ev.ty, Ev.rv)
(* Encoding under a nesting limit is refused exactly if decoding the result *)
(* under the same limit would be                                            *)
EncodeLimit ==
   (s.status # "run" /\ Ev.op = "enl") =>
     \A j \in 1..Len(Ev.res) : Ev.res[j][1] = (IF s.status = "ok" THEN 1 ELSE 0)
(* Merging: every form of call gives the message the merge law prescribes,  *)
(* and that is the message the concatenated encodings denote                *)
MergeAgrees ==
   (s.status # "run" /\ Ev.op = "mrg") =>
     LET m == Merge(Ev.ty, Ev.v, Ev.w)
     IN \A j \in 1..Len(Ev.res) : Ev.res[j][1] = 1 /\ Ev.res[j][2] = m
MergeLaw ==
   (s.status # "run" /\ Ev.op = "mrg") => s.status = "ok" /\ Value(s) = Merge(Ev.ty, Ev.v, Ev.w)
===========================================================================
