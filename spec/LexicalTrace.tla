---------------------------- MODULE LexicalTrace ----------------------------
EXTENDS Lexical, Json, IOUtils, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE i
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Conforms == i > 1 => LET e == Trace[i - 1] IN Allowed(e.a, e.x, e.ok = 1, e.y)
=============================================================================
