-------------------------------- MODULE Rpc --------------------------------
(* A call from a client of hpp_proto::grpc to a service of it, end to end.  *)
(*                                                                          *)
(* The client's program: reqs, what it wants to send one after the other    *)
(* (1: a message, 0: one that cannot be encoded), numbered from 1.          *)
(* The server's program: rd, how many messages it reads before it ends the  *)
(* call (it ends it at the end of the client's messages anyway); wr, what   *)
(* it answers with, in the same notation: one for every message read in a   *)
(* bidirectional call, all of them in a server-streaming one; end, how it   *)
(* ends the call.                                                           *)
EXTENDS Integers, Sequences
Kinds == 0..3
Good(k) == IF k \in {0, 1} THEN {"G0", "G1", "Y0"} \cup (IF k = 0 THEN {"G3"} ELSE {}) ELSE {"G0", "G1", "G4", "G6", "Y0", "F0"}
Fail(k) == {"F5", "Y5"} \cup (IF k = 0 THEN {"G2"} ELSE IF k = 1 THEN {} ELSE {"G5"})
Junk == {"Yx"}     \* bytes that are no message
BadReply == {"Gb"}
Ends(k) == Good(k) \cup Fail(k) \cup Junk \cup BadReply
HasReply(k, e) == (e \in Good(k) /\ e # "F0") \/ (k \in {2, 3} /\ e \in {"Y5", "G5"})  \* streams deliver the last message whatever the status
Status(e) == IF e \in {"F5", "Y5", "G2", "G5"} THEN 5 ELSE IF e \in BadReply THEN 13 ELSE 0

(* the state: the client's position, what is under way in both directions,  *)
(* the server's position                                                    *)
Start(p) == [ci |-> 1, over |-> FALSE, up |-> <<>>, wres |-> <<>>, down |-> <<>>, got |-> <<>>, stat |-> -1,
             open |-> FALSE, sgot |-> <<>>, sw |-> 0, send |-> FALSE, code |-> -1, due |-> 0]
Streams(k) == k \in {1, 3}
(* kinds with one request: one that cannot be encoded ends the call at once *)
CanSend(p, s) == s.stat = -1 /\ s.ci <= Len(p.reqs)
Send(p, s) ==
  IF p.reqs[s.ci] = 1 THEN [s EXCEPT !.ci = @ + 1, !.up = Append(@, s.ci), !.open = TRUE, !.wres = Append(@, 0)]
  ELSE IF Streams(p.k) THEN [s EXCEPT !.ci = @ + 1, !.wres = Append(@, 13), !.open = TRUE]
  ELSE [s EXCEPT !.ci = @ + 1, !.stat = 13, !.over = TRUE]
CanClose(p, s) == s.stat = -1 /\ s.ci > Len(p.reqs) /\ ~s.over
Close(p, s) == [s EXCEPT !.over = TRUE, !.open = TRUE]
(* the server *)
Active(s) == s.open /\ ~s.send
AnswerN(p, s, n) == IF n > Len(p.wr) \/ p.wr[n] = 1 THEN [s EXCEPT !.sw = n, !.down = Append(@, n)]
                    ELSE [s EXCEPT !.sw = n, !.send = TRUE, !.code = 13]
Finish(p, s) == [s EXCEPT !.send = TRUE, !.code = Status(p.end),
                          !.down = IF HasReply(p.k, p.end) THEN Append(@, s.sw + 1) ELSE IF p.end \in Junk THEN Append(@, -1) ELSE @]
CanRead(p, s) == ~p.absent /\ Active(s) /\ s.up # <<>> /\ s.due = 0 /\ (Len(s.sgot) < p.rd \/ ~Streams(p.k))
Read(p, s) == [s EXCEPT !.up = Tail(@), !.sgot = Append(@, Head(s.up)), !.due = IF p.k = 3 THEN 1 ELSE 0]
(* what it does next: answer what is due, or end the call *)
CanAct(p, s) == /\ Active(s)
                /\ \/ p.absent
                   \/ s.due = 1
                   \/ p.k = 0 /\ s.sgot # <<>>
                   \/ p.k = 2 /\ s.sgot # <<>>
                   \/ Streams(p.k) /\ (Len(s.sgot) >= p.rd \/ (s.over /\ s.up = <<>>))
ServerAct(p, s) == IF p.absent THEN [s EXCEPT !.send = TRUE, !.code = 12]   \* no such method
                   ELSE IF s.due = 1 THEN AnswerN(p, [s EXCEPT !.due = 0], s.sw + 1)
                   ELSE IF p.k = 2 /\ s.sw < Len(p.wr) THEN AnswerN(p, s, s.sw + 1)
                   ELSE Finish(p, s)
(* the client takes what arrived; the status comes last *)
CanTake(p, s) == s.down # <<>> /\ s.stat = -1
Take(p, s) == [s EXCEPT !.down = Tail(@), !.got = Append(@, Head(s.down))]
CanEnd(p, s) == s.send /\ s.down = <<>> /\ s.stat = -1
End(p, s) == [s EXCEPT !.stat = s.code]

(* What both sides have seen when the call is over, whatever the timing.    *)
(* Of the replies of a failed unary or client-streaming call nothing is     *)
(* seen; one that is no message is seen as -1.                              *)
Seen(p, s) == [stat |-> s.stat, got |-> s.got, sgot |-> s.sgot]
(* the outcome by running to the end with a fixed priority *)
RECURSIVE Runs(_, _)
Runs(q, t) == IF t.stat # -1 THEN t
              ELSE IF CanSend(q, t) THEN Runs(q, Send(q, t)) ELSE IF CanClose(q, t) THEN Runs(q, Close(q, t))
              ELSE IF CanRead(q, t) THEN Runs(q, Read(q, t)) ELSE IF CanAct(q, t) THEN Runs(q, ServerAct(q, t))
              ELSE IF CanTake(q, t) THEN Runs(q, Take(q, t)) ELSE Runs(q, End(q, t))
Outcome(q) == Seen(q, Runs(q, Start(q)))
(* call() and the function given to async_call() report the status of the   *)
(* whole, a reply that cannot be decoded included                           *)
Reported(o, mode) == IF mode \in {"c", "a"} /\ o.got = <<-1>> THEN [o EXCEPT !.stat = 13, !.got = <<>>] ELSE o
(* what write() says about each message, as far as the client got           *)
Written(p) == [i \in 1..Len(p.reqs) |-> IF p.reqs[i] = 1 THEN 0 ELSE 13]
=============================================================================
