--------------------------- MODULE DescriptorTrace ---------------------------
(* Sets of descriptors given to the real loader: accepted exactly when well *)
(* formed, and then every field has the meaning the schema gives it.        *)
EXTENDS Descriptor, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES i, j, want
Init == i \in 1..Len(Trace) /\ j = 0 /\ want = [ok |-> TRUE, msgs |-> <<>>]
Next == j < Len(Trace[i].ev) /\ j' = j + 1 /\ i' = i /\ want' = Load(Trace[i].ev[j + 1].set)
Spec == Init /\ [][Next]_<<i, j, want>>
Conforms == j > 0 => want = Trace[i].ev[j].got
=============================================================================
