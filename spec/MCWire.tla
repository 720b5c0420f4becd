------------------------------- MODULE MCWire -------------------------------
(* Bounded model of the wire format: every message that is a concatenation  *)
(* of at most N tokens of the type's vocabulary.  The laws below are checked *)
(* on every such input, and every input is exported together with the       *)
(* outcome the specification assigns, to be replayed on the implementation. *)
EXTENDS Wire, VtVocab, Json
CONSTANTS N, Export
VARIABLES t, b, n, d, tok, was
vars == <<t, b, n, d, tok, was>>
Outcome(ty, bytes) == LET s == Decode(ty, bytes, TRUE, 100)
                      IN [st |-> s.status, v |-> IF s.status = "ok" THEN Value(s) ELSE <<>>]
Init == /\ t \in Types
        /\ b = <<>> /\ n = 0 /\ tok = <<>>
        /\ d = Outcome(t, <<>>) /\ was = d
Next == /\ n < N
        /\ \E k \in 1..Len(Vocab[t]) :
             /\ tok' = Vocab[t][k]
             /\ b' = b \o tok'
             /\ d' = Outcome(t, b')
        /\ n' = n + 1 /\ was' = d /\ t' = t
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RECURSIVE Strip(_,_)
StripF(f, v) == IF IsMsg(f) THEN Strip(f.sub, v) ELSE v
StripSlot(s, v) ==
  CASE s.card \in {"implicit","required"} -> StripF(s.f[1], v)
    [] s.card \in {"optional","repeated"} -> [i \in 1..Len(v) |-> StripF(s.f[1], v[i])]
    [] s.card = "map" -> [i \in 1..Len(v) |-> <<v[i][1], StripF(s.f[2], v[i][2])>>]
    [] s.card = "oneof" -> IF v = <<>> THEN v ELSE <<v[1], StripF(s.f[v[1]], v[2])>>
Strip(ty, m) == [i \in 1..Len(m) |-> IF i = Len(m) THEN <<>> ELSE StripSlot(Schema[ty][i], m[i])]
(* every legal value has one canonical encoding that decodes back to it     *)
RoundTripLaw == d.st = "ok" => LET r == Outcome(t, EncMsg(t, d.v)) IN r.st = "ok" /\ r.v = d.v
(* appending the encoding of a message is merging that message             *)
ConcatLaw == (n > 0 /\ was.st = "ok") =>
               LET o == Outcome(t, tok)
               IN o.st = "ok" => LET e == EncMsg(t, o.v)
                                     r == Outcome(t, SubSeq(b, 1, Len(b) - Len(tok)) \o e)
                                 IN r.st = "ok" /\ r.v = Merge(t, was.v, o.v)
(* dropping unknown fields changes nothing else                             *)
DropLaw == LET s == Decode(t, b, FALSE, 100)
           IN /\ (s.status = "ok") = (d.st = "ok")
              /\ d.st = "ok" => Value(s) = Strip(t, d.v)
(* a message is never larger than its canonical encoding says: re-encoding  *)
(* twice is re-encoding once                                                *)
CanonLaw == d.st = "ok" => LET e == EncMsg(t, d.v) IN EncMsg(t, Outcome(t, e).v) = e
(* merging with an empty message changes nothing                            *)
MergeUnit == d.st = "ok" => Merge(t, d.v, DefaultTab[t]) = d.v \/ \E i \in 1..Len(Schema[t]) : Schema[t][i].card = "required"
Vec == Export => PrintT("VEC " \o ToJson(<<t, b, IF d.st = "ok" THEN 1 ELSE 0, d.v, IF d.st = "ok" THEN Strip(t, d.v) ELSE <<>> >>))
===========================================================================
