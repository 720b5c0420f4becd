------------------------------ MODULE MCServer ------------------------------
(* Every transition of the call from every state, each exported with one    *)
(* way to get there.                                                        *)
EXTENDS Server, TLC, Json
CONSTANT Wide
VARIABLES s, path, nfin, late
vars == <<s, path, nfin, late>>
Narrow(k) == {a \in Acts(k) : a \in {"R", "W0", "W4", "W5", "F0", "F5", "G0", "Gb", "Y0"}}
Scripts(k) == {<<>>} \cup {<<a>> : a \in Acts(k)} \cup {<<a, b>> : a \in Narrow(k), b \in (IF Wide THEN Acts(k) ELSE Narrow(k))}
Names == {"ctor", "rok", "rfail", "wok", "wfail", "cancel", "later", "meta", "done"}
Init == /\ \E k \in Kinds, f \in BOOLEAN : s = Start(k, f)
        /\ path = <<>> /\ nfin = 0 /\ late = FALSE
IsFin(l) == l[1] \in {"finish", "last", "reply"}
IsStart(l) == l[1] \in {"read", "write", "finish", "last", "reply"}
RECURSIVE Late(_, _)   \* something started after the finish
Late(log, done) == log # <<>> /\ ((IsStart(Head(log)) /\ done) \/ Late(Tail(log), done \/ IsFin(Head(log))))
Next == \E e \in {x \in Names : Possible(s, [e |-> x])} : \E acts \in Scripts(s.k) : \E ret \in (IF e \in {"rfail", "wfail", "meta"} THEN BOOLEAN ELSE {TRUE}) :
           LET v == [e |-> e, acts |-> acts, ret |-> ret] IN
           /\ Enabled(s, v)
           /\ LET x == Apply(s, v) IN
              /\ s' = x.s
              /\ path' = Append(path, [e |-> e, acts |-> acts, ret |-> ret, log |-> x.log])
              /\ nfin' = nfin + Len(SelectSeq(x.log, IsFin))
              /\ late' = (late \/ Late(x.log, nfin > 0))
              /\ PrintT("VEC " \o ToJson(<<s.k, s.full, path'>>))
View == <<[s EXCEPT !.nr = 0, !.nw = 0], nfin, late>>
Spec == Init /\ [][Next]_vars
FinishedOnce == nfin <= 1 /\ (s.fin <=> nfin = 1)
NothingAfter == ~late
OverOnlyWhenFinished == s.dn => s.fin /\ ~s.ro /\ ~s.wo
(* a read or write that fails ends the call unless the handler says it will *)
FallbackEnds == [][(\E v \in {path'[Len(path')]} : v.e \in {"rfail", "wfail"} /\ (~v.ret \/ ~s.full)) => s'.fin]_vars
=============================================================================
