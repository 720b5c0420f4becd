-------------------------------- MODULE Ext --------------------------------
(* Extensions.  A host message keeps, for every number it does not declare, *)
(* the wire occurrences of that number in order; an extension is a typed    *)
(* view of them: the value that a message with just that field would have.  *)
(*   host state   [k |-> the slots of its own fields, x |-> <<<<n, bytes>>, *)
(*                 ..>> sorted by number, no empty entry]                   *)
(*   extension e  pseudo message type XT[e], one slot: "required" = always  *)
(*                present when set, else its declared default; "repeated"   *)
(* Two hosts live side by side, so that copies can be told from sharing.    *)
EXTENDS Wire
(* VtSchema provides Host_id, XT and the position HostKid of the nested host *)
XF(e) == Schema[XT[e]][1].f[1]
XNum(e) == XF(e).num
Rep(e) == Schema[XT[e]][1].card = "repeated"
---------------------------------------------------------------------------
(* grouping retained bytes by field number                                  *)
TagNum(b, p, n) == ((b[p] % 128) \div 8) + Dg(b,p,n,2) * 16 + Dg(b,p,n,3) * 2048 + Dg(b,p,n,4) * 262144 + (Dg(b,p,n,5) % 16) * 33554432
RECURSIVE FieldEnd(_,_), GroupEnd(_,_)
FieldEnd(b, p) == LET n == VarLen(b, p, Len(b)) wt == b[p] % 8 q == p + n m == VarLen(b, q, Len(b)) IN
   CASE wt = 0 -> q + m
     [] wt = 1 -> q + 8
     [] wt = 5 -> q + 4
     [] wt = 2 -> q + m + NatOf(b, q, m)
     [] OTHER -> GroupEnd(b, q)
GroupEnd(b, p) == IF b[p] % 8 = 4 THEN p + VarLen(b, p, Len(b)) ELSE GroupEnd(b, FieldEnd(b, p))
(* append raw bytes under number n                                          *)
RECURSIVE Add(_,_,_)
Add(x, n, raw) == IF x = <<>> THEN <<<<n, raw>>>>
                  ELSE IF x[1][1] = n THEN <<<<n, x[1][2] \o raw>>>> \o Tail(x)
                  ELSE IF x[1][1] > n THEN <<<<n, raw>>>> \o x ELSE <<x[1]>> \o Add(Tail(x), n, raw)
RECURSIVE Group(_,_,_)
Group(u, p, acc) == IF p > Len(u) THEN acc
                    ELSE LET e == FieldEnd(u, p) IN Group(u, e, Add(acc, TagNum(u, p, VarLen(u, p, Len(u))), SubSeq(u, p, e - 1)))
Drop(x, n) == SelectSeq(x, LAMBDA p : p[1] # n)
At(x, n) == LET h == SelectSeq(x, LAMBDA p : p[1] = n) IN IF h = <<>> THEN <<>> ELSE h[1][2]
RECURSIVE AddAll(_,_)
AddAll(x, y) == IF y = <<>> THEN x ELSE AddAll(Add(x, y[1][1], y[1][2]), Tail(y))
Flat(x) == Cat([i \in 1..Len(x) |-> x[i][2]])
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Len(x[1][2]) + Sum(Tail(x))
---------------------------------------------------------------------------
(* host values                                                              *)
RECURSIVE Norm(_)
Norm(v) == LET n == Len(v)
           IN [k |-> [i \in 1..(n-1) |-> IF i = HostKid /\ v[i] # <<>> THEN <<Norm(v[i][1])>> ELSE v[i]],
               x |-> Group(v[n], 1, <<>>)]
RECURSIVE Raw(_)
Raw(h) == [i \in 1..(Len(h.k) + 1) |-> IF i > Len(h.k) THEN Flat(h.x)
                                       ELSE IF i = HostKid /\ h.k[i] # <<>> THEN <<Raw(h.k[i][1])>> ELSE h.k[i]]
Empty == Norm(Default(Host_id))
DecodeHost(b) == Decode(Host_id, b, TRUE, 100)
Bytes(h) == EncMsg(Host_id, Raw(h))
RECURSIVE MergeHost(_,_)
MergeHost(h, g) == [k |-> [i \in 1..Len(h.k) |->
                             IF i = HostKid /\ h.k[i] # <<>> /\ g.k[i] # <<>> THEN <<MergeHost(h.k[i][1], g.k[i][1])>>
                             ELSE IF i = HostKid THEN (IF g.k[i] # <<>> THEN g.k[i] ELSE h.k[i])
                             ELSE MergeSlot(Schema[Host_id][i], h.k[i], g.k[i])],
                    x |-> AddAll(h.x, g.x)]
---------------------------------------------------------------------------
(* one extension.  keep: unknown fields of messages inside are retained     *)
Read(e, raw, keep) ==
  IF raw = <<>> THEN <<1, Default(XT[e])[1]>>
  ELSE LET s == Decode(XT[e], raw, keep, 100) t == Decode(XT[e], raw, TRUE, 100)
       IN IF s.status # "ok" THEN <<0>>
          \* an undeclared number of a closed enum: the extension object has nowhere to keep it
          ELSE IF ~Rep(e) /\ XF(e).closed /\ Value(t)[2] # <<>> THEN <<0>>
          ELSE <<1, Value(s)[1]>>
Write(e, v) == EncSlot(Schema[XT[e]][1], v)
SetExt(x, e, v) == LET w == Write(e, v) y == Drop(x, XNum(e)) IN IF w = <<>> THEN y ELSE Add(y, XNum(e), w)
---------------------------------------------------------------------------
(* operations: <<name, host, ..>> -> <<result, hosts>>                      *)
Apply(s, op, keep) ==
  LET h == op[2] o == op[1] IN
  CASE o = "set" -> << <<1>>, [s EXCEPT ![h].x = SetExt(@, op[3], op[4])] >>
    [] o = "get" -> << Read(op[3], At(s[h].x, XNum(op[3])), keep), s >>
    [] o = "has" -> << <<IF At(s[h].x, XNum(op[3])) = <<>> THEN 0 ELSE 1>>, s >>
    [] o = "dec" -> LET d == DecodeHost(op[3]) IN IF d.status = "ok" THEN << <<1>>, [s EXCEPT ![h] = Norm(Value(d))] >>
                                                  ELSE << <<0>>, [s EXCEPT ![h] = Empty] >>
    [] o = "enc" -> << <<1>>, s >>          \* the bytes are judged by Encodes
    [] o = "copy" -> << <<1>>, [s EXCEPT ![h] = s[op[3]]] >>
    [] o = "merge" -> << <<1>>, [s EXCEPT ![h] = MergeHost(s[h], s[op[3]])] >>
    [] o = "mergem" -> << <<1>>, [s EXCEPT ![h] = MergeHost(s[h], s[op[3]]), ![op[3]] = Empty] >>   \* the moved-from source is reset
    [] o = "eq" -> << <<IF s[h] = s[op[3]] THEN 1 ELSE 0>>, s >>
(* encoding writes every occurrence exactly once                            *)
Encodes(h, b) == LET d == DecodeHost(b) IN d.status = "ok" /\ Norm(Value(d)) = h /\ Len(b) = Len(Bytes(h))
---------------------------------------------------------------------------
Sorted(x) == \A i \in 1..Len(x) : x[i][2] # <<>> /\ (i > 1 => x[i-1][1] < x[i][1])
RECURSIVE TypeOK1(_)
TypeOK1(h) == Sorted(h.x) /\ (h.k[HostKid] # <<>> => TypeOK1(h.k[HostKid][1]))
TypeOK(s) == \A i \in DOMAIN s : TypeOK1(s[i])
=============================================================================
