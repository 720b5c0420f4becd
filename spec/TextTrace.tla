----------------------------- MODULE TextTrace -----------------------------
(* Recorded calls of the text codecs.  Every record is one call.            *)
EXTENDS WktText, Base64, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, ok
Want(r) == CASE r.op = "b64e" -> Enc(r.x)
             [] r.op = "b64d" -> Dec(r.x)
             [] r.op = "tse" -> TsText(r.x)
             [] r.op = "tsd" -> TsParse(r.x)
             [] r.op = "due" -> DuText(r.x)
             [] r.op = "dud" -> DuParse(r.x)
Init == i = 1 /\ ok = TRUE
Next == i <= Len(Trace) /\ ok /\ i' = i + 1 /\ ok' = (Trace[i].y = Want(Trace[i]))
Spec == Init /\ [][Next]_<<i, ok>>
Conforms == ok
=============================================================================
