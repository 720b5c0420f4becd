------------------------------- MODULE Server -------------------------------
(* One server-side gRPC call as hpp_proto::grpc::CallbackService runs it: a *)
(* stream (or unary call) that accepts operations and reports their ends, a *)
(* handler that acts in its callbacks, and the reactor between them, which  *)
(* finishes the call with a fallback where the handler does not.            *)
(*                                                                          *)
(* k     kind: 0 unary, 1 client streaming, 2 server streaming, 3 both      *)
(* full  the handler has the optional callbacks                             *)
(* ro wo a read / write is outstanding at the stream                        *)
(* h..   the same as the handler knows it (it is not told when the call is  *)
(*       finished for it: by a fallback, or because a reply cannot be       *)
(*       encoded); hfin: it has finished the call itself; eof: a read ended *)
(* fin   the stream was told to finish; dn: the call is over                *)
EXTENDS Integers, Sequences
Kinds == 0..3
Reads(k) == k \in {1, 3}
Writes(k) == k \in {2, 3}
Start(k, full) == [k |-> k, full |-> full, born |-> FALSE, ro |-> FALSE, wo |-> FALSE, hro |-> FALSE, hwo |-> FALSE, hfin |-> FALSE,
                   eof |-> FALSE, fin |-> FALSE, canc |-> FALSE, meta |-> FALSE, dn |-> FALSE, nr |-> 0, nw |-> 0]

(* What a handler can call.  Replies are numbered 1, 2, .. in the order in  *)
(* which the handler gives them; the letter-digit names are the overloads.  *)
GoodWrite == {"W0", "W1", "W2", "W3", "W4", "W7"}   \* reply | reply, options | reply, mode | reply, options, mode | bytes | bytes, options
BadWrite == {"W5", "W6"}                      \* replies that cannot be encoded, without and with options
FinStatus == {"F0", "F5"}                     \* a status alone
FinReply == {"G0", "G1", "G2", "G3", "G4", "G5", "G6", "G7", "Y0", "Y5"}
FinBad == {"Gb", "Gc", "Gd"}
Acts(k) == (IF Reads(k) THEN {"R"} ELSE {}) \cup (IF Writes(k) THEN GoodWrite \cup BadWrite ELSE {}) \cup FinStatus \cup {"Y0", "Y5", "Gb", "G0", "G1"}
           \cup (CASE k = 0 -> {"G2", "G3", "Gc"} [] k = 1 -> {} [] OTHER -> {"G4", "G5", "G6", "G7", "Gd"})
StatusOf(a) == IF a \in {"F5", "G2", "G5", "Y5"} THEN 5 ELSE IF a \in FinBad THEN 13 ELSE 0

(* a correct handler, by what it knows *)
MayAct(s, a) == /\ a \in Acts(s.k) /\ ~s.hfin
                /\ a = "R" => ~s.hro /\ ~s.eof
                /\ (a \in GoodWrite \cup BadWrite \cup FinReply \cup FinBad /\ Writes(s.k)) => ~s.hwo

(* what one call of the handler makes the stream see *)
Act(x, a) ==
  LET s == x.s IN
  CASE a = "R" -> IF s.fin THEN [x EXCEPT !.s.hro = TRUE]
                  ELSE [s |-> [s EXCEPT !.hro = TRUE, !.ro = TRUE], log |-> Append(x.log, <<"read">>)]
    [] a \in GoodWrite -> LET t == [s EXCEPT !.hwo = TRUE, !.nw = @ + 1] IN
                  IF s.fin THEN [x EXCEPT !.s = t] ELSE [s |-> [t EXCEPT !.wo = TRUE], log |-> Append(x.log, <<"write", t.nw>>)]
    [] a \in BadWrite -> LET t == [s EXCEPT !.hwo = TRUE, !.nw = @ + 1] IN
                  IF s.fin THEN [x EXCEPT !.s = t] ELSE [s |-> [t EXCEPT !.fin = TRUE], log |-> Append(x.log, <<"finish", 13>>)]
    [] a \in FinStatus -> LET t == [s EXCEPT !.hfin = TRUE, !.fin = TRUE] IN
                  IF s.fin THEN [x EXCEPT !.s = t] ELSE [s |-> t, log |-> Append(x.log, <<"finish", StatusOf(a)>>)]
    [] OTHER -> LET t == [s EXCEPT !.hfin = TRUE, !.fin = TRUE, !.nw = @ + 1] IN
                  IF s.fin THEN [x EXCEPT !.s = t]
                  ELSE [s |-> t, log |-> Append(x.log, IF a \in FinBad THEN <<"finish", 13>>
                                                       ELSE IF Writes(s.k) THEN <<"last", t.nw, StatusOf(a)>>
                                                       ELSE IF StatusOf(a) # 0 THEN <<"finish", StatusOf(a)>>   \* the reply does not matter
                                                       ELSE <<"reply", t.nw, 0>>)]
RECURSIVE Run(_, _)
Run(x, acts) == IF acts = <<>> THEN x ELSE Run(Act(x, Head(acts)), Tail(acts))
RECURSIVE May(_, _)
May(s, acts) == IF acts = <<>> THEN TRUE ELSE MayAct(s, Head(acts)) /\ May(Act([s |-> s, log |-> <<>>], Head(acts)).s, Tail(acts))

Fallback(x, code) == IF x.s.fin THEN x ELSE [s |-> [x.s EXCEPT !.fin = TRUE], log |-> Append(x.log, <<"finish", code>>)]
Opt(s, name) == IF s.full THEN <<name>> ELSE <<>>
IsRead(l) == l[1] = "read"
NotRead(l) == l[1] # "read"

(* an event: [e, acts, ret] with what the handler does in its callback and  *)
(* returns from it                                                          *)
Apply(s, v) ==
  CASE v.e = "ctor" ->   \* what is called before the stream is there is passed on when it is, reads first
         LET x == Run([s |-> [s EXCEPT !.born = TRUE], log |-> <<>>], v.acts)
         IN [x EXCEPT !.log = (IF Reads(s.k) THEN <<>> ELSE <<<<"req", 1>>>>) \o SelectSeq(x.log, IsRead) \o SelectSeq(x.log, NotRead)]
    [] v.e = "rok" -> Run([s |-> [s EXCEPT !.ro = FALSE, !.hro = FALSE, !.nr = @ + 1], log |-> <<<<"rok", s.nr + 1>>>>], v.acts)
    [] v.e = "rfail" ->
         LET x == [s |-> [s EXCEPT !.ro = FALSE, !.hro = FALSE, !.eof = TRUE], log |-> <<>>]
         IN IF s.full THEN LET y == Run([x EXCEPT !.log = <<<<IF s.canc THEN "rcancel" ELSE "reof">>>>], v.acts)
                           IN IF v.ret THEN y ELSE Fallback(y, IF s.canc THEN 1 ELSE 0)
            ELSE Fallback(x, IF s.canc THEN 1 ELSE 0)
    [] v.e = "wok" -> Run([s |-> [s EXCEPT !.wo = FALSE, !.hwo = FALSE], log |-> <<<<"wok">>>>], v.acts)
    [] v.e = "wfail" ->
         LET x == [s |-> [s EXCEPT !.wo = FALSE, !.hwo = FALSE], log |-> <<>>]
         IN IF s.full THEN LET y == Run([x EXCEPT !.log = <<<<"werr">>>>], v.acts)
                           IN IF v.ret THEN y ELSE Fallback(y, IF s.canc THEN 1 ELSE 2)
            ELSE Fallback(x, IF s.canc THEN 1 ELSE 2)
    [] v.e = "cancel" -> IF s.full THEN Run([s |-> [s EXCEPT !.canc = TRUE], log |-> <<<<"oncancel">>>>], v.acts)
                         ELSE [s |-> [s EXCEPT !.canc = TRUE], log |-> <<>>]
    [] v.e = "later" -> Run([s |-> s, log |-> <<>>], v.acts)   \* the handler acts on its own
    [] v.e = "meta" -> [s |-> [s EXCEPT !.meta = TRUE], log |-> IF s.full THEN <<<<"meta", IF v.ret THEN 1 ELSE 0>>>> ELSE <<>>]
    [] v.e = "done" -> [s |-> [s EXCEPT !.dn = TRUE], log |-> (IF s.full THEN <<<<"ondone">>>> ELSE <<>>) \o <<<<"gone">>>>]

Possible(s, v) ==
  CASE v.e = "ctor" -> ~s.born
    [] v.e \in {"rok", "rfail"} -> s.ro
    [] v.e \in {"wok", "wfail"} -> s.wo
    [] v.e = "cancel" -> s.born /\ ~s.canc /\ ~s.dn
    [] v.e = "later" -> s.born /\ ~s.dn
    [] v.e = "meta" -> s.born /\ ~s.meta /\ ~s.dn
    [] v.e = "done" -> s.fin /\ ~s.ro /\ ~s.wo /\ ~s.dn
(* the handler's view when it acts in that event *)
Seen(s, v) == CASE v.e = "rok" -> [s EXCEPT !.hro = FALSE] [] v.e = "rfail" -> [s EXCEPT !.hro = FALSE, !.eof = TRUE]
                [] v.e \in {"wok", "wfail"} -> [s EXCEPT !.hwo = FALSE] [] OTHER -> s
Silent(s, v) == v.e \in {"meta", "done"} \/ (~s.full /\ v.e \in {"rfail", "wfail", "cancel"})
Enabled(s, v) == Possible(s, v) /\ (IF Silent(s, v) THEN v.acts = <<>> ELSE May(Seen(s, v), v.acts))
=============================================================================
