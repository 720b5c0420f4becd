------------------------------- MODULE MCRpc -------------------------------
(* Every interleaving of every pair of small programs leads to the same     *)
(* outcome; the outcomes are exported.                                      *)
EXTENDS Rpc, TLC, Json
CONSTANT N
VARIABLES p, s
vars == <<p, s>>
Bits(n) == UNION {[1..i -> 0..1] : i \in 0..n}
OneBad(q) == \A i, j \in 1..Len(q) : q[i] = 0 /\ q[j] = 0 => i = j
Seqs(n) == {q \in Bits(n) : OneBad(q)}
Progs == {[k |-> k, absent |-> ab, reqs |-> q, rd |-> r, wr |-> w, end |-> e] :
            k \in Kinds, ab \in BOOLEAN, q \in Seqs(N), r \in 0..N, w \in Seqs(N), e \in Ends(0) \cup Ends(3)}
Sane(x) == /\ (x.absent => x.k \in {0, 3} /\ x.wr = <<>> /\ x.end = "G0")
           /\ x.end \in Ends(x.k)
           /\ (x.k \in {0, 2} => Len(x.reqs) = 1 /\ x.rd = 0)
           /\ (x.k \in {0, 1} => x.wr = <<>>)
Init == p \in {x \in Progs : Sane(x)} /\ s = Start(p)
Next == /\ p' = p
        /\ \/ CanSend(p, s) /\ s' = Send(p, s)
           \/ CanClose(p, s) /\ s' = Close(p, s)
           \/ CanRead(p, s) /\ s' = Read(p, s)
           \/ CanAct(p, s) /\ s' = ServerAct(p, s)
           \/ CanTake(p, s) /\ s' = Take(p, s)
           \/ CanEnd(p, s) /\ s' = End(p, s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Deterministic == s.stat # -1 => Seen(p, s) = Outcome(p)
Ends1 == <>(s.stat # -1)
Vec == s = Start(p) => PrintT("VEC " \o ToJson(<<p, Outcome(p)>>))
=============================================================================
