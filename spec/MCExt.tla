------------------------------- MODULE MCExt -------------------------------
(* Every state of a host over a few extensions with a few stored sequences  *)
(* of occurrences each, and every operation on it.                          *)
EXTENDS Ext, Json
CONSTANTS Groups, Export     \* sets of extensions looked at together
VARIABLES g, s, op, res
(* XVals[e]: values of extension e ; XRaw[e]: further stored occurrences    *)
Stored(e) == {<<>>} \cup {Write(e, XVals[e][a]) : a \in 1..Len(XVals[e])}
             \cup {Write(e, XVals[e][a]) \o Write(e, XVals[e][b]) : a \in 1..Len(XVals[e]), b \in {1, Len(XVals[e])}}
             \cup {XRaw[e][a] : a \in 1..Len(XRaw[e])}
Few(e) == {<<>>, Write(e, XVals[e][Len(XVals[e])])}
Cell(e, r) == IF r = <<>> THEN <<>> ELSE <<<<XNum(e), r>>>>
Hosts(Xs, f) == LET E == SetToSeq(Xs)
            IN IF Len(E) = 1 THEN {[Empty EXCEPT !.x = Cell(E[1], r)] : r \in f[E[1]]}
               ELSE {[Empty EXCEPT !.x = AddAll(Cell(E[1], r[1]), Cell(E[2], r[2]))] : r \in f[E[1]] \X f[E[2]]}
All == [e \in UNION Groups |-> Stored(e)]
Some == [e \in UNION Groups |-> Few(e)]
Ops(Xs) == {<<"set", 1, e, a>> : e \in Xs, a \in 1..3} \cup {<<"get", 1, e, a>> : e \in Xs, a \in 0..3} \cup {<<"has", 1, e>> : e \in Xs}
       \cup {<<"enc", 1>>} \cup {<<o, 1, 2>> : o \in {"copy", "merge", "mergem", "eq"}} \cup {<<"copy", 2, 1>>}
Ok(o) == (o[1] \in {"set", "get"}) => o[4] <= Len(XVals[o[3]])
(* operations name values by index *)
Real(o) == IF o[1] = "set" THEN <<"set", o[2], o[3], XVals[o[3]][o[4]]>> ELSE IF o[1] = "get" THEN <<"get", o[2], o[3]>> ELSE o
Init == /\ g \in Groups
        /\ op \in {o \in Ops(g) : Ok(o)}
        /\ s \in (IF op[1] \in {"copy", "merge", "mergem", "eq"} THEN Hosts(g, IF Cardinality(g) = 1 THEN All ELSE Some) \X Hosts(g, Some) ELSE {<<h, Empty>> : h \in Hosts(g, All)})
        /\ res = Apply(s, Real(op), FALSE)
Next == UNCHANGED <<g, s, op, res>>
Spec == Init /\ [][Next]_<<g, s, op, res>>
T == res[2]
Laws ==
  /\ TypeOK(T)
  (* what was set is what is read, present, alone under its number, and nothing else changed *)
  /\ op[1] = "set" => LET e == op[3] v == XVals[e][op[4]] n == XNum(e) IN
        /\ Read(e, At(T[1].x, n), FALSE) = <<1, v>>
        /\ (At(T[1].x, n) # <<>>) = (~Rep(e) \/ v # <<>>)
        /\ Drop(T[1].x, n) = Drop(s[1].x, n) /\ T[1].k = s[1].k /\ T[2] = s[2]
        /\ SetExt(T[1].x, e, v) = T[1].x
  /\ op[1] \in {"get", "has", "enc", "eq"} => T = s
  /\ op[1] = "get" /\ At(s[1].x, XNum(op[3])) = <<>> => res[1] = <<1, Default(XT[op[3]])[1]>>
  (* the encoding carries exactly the state *)
  /\ op[1] = "enc" => Encodes(s[1], Bytes(s[1]))
  (* merging is decoding the concatenation *)
  /\ op[1] \in {"merge", "mergem"} => LET d == DecodeHost(Bytes(s[1]) \o Bytes(s[2])) IN d.status = "ok" /\ Norm(Value(d)) = T[1]
Vec == Export => PrintT("VEC " \o ToJson(<<s, op, res, Bytes(s[1]), Bytes(s[2])>>))
=============================================================================
