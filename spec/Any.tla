-------------------------------- MODULE Any --------------------------------
(* google.protobuf.Any: a message stored as its encoding under the URL of   *)
(* its type.  An Any is <<url, value, unknown>>, the tuple Wire gives the   *)
(* message type Any_id; two of them live side by side.                      *)
EXTENDS Wire
(* VtSchema provides Any_id and FullName[t], the full name as bytes         *)
Slash == 47
Domain == <<116,121,112,101,46,103,111,111,103,108,101,97,112,105,115,46,99,111,109>>     \* type.googleapis.com
Slashes(u) == {i \in 1..Len(u) : u[i] = Slash}
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Url(t) == Domain \o <<Slash>> \o FullName[t]
Names(u, t) == Slashes(u) # {} /\ SubSeq(u, MaxOf(Slashes(u)) + 1, Len(u)) = FullName[t]
Unpack(a, t, keep) == IF ~Names(a[1], t) THEN <<0>>
                      ELSE LET d == Decode(t, a[2], keep, 100) IN IF d.status = "ok" THEN <<1, Value(d)>> ELSE <<0>>
Empty == Default(Any_id)
(* the stored bytes are an encoding of v (maps may be written in any order) *)
Packed(a, t, v) == /\ a[1] = Url(t) /\ Len(a[2]) = Len(EncMsg(t, v))
                   /\ LET d == Decode(t, a[2], TRUE, 100) IN d.status = "ok" /\ Value(d) = v
(* operations: <<name, any, ..>> ; pack is judged by Packed                 *)
Apply(s, op, keep) ==
  LET h == op[2] o == op[1] IN
  CASE o = "unpack" -> << Unpack(s[h], op[3], keep), s >>
    [] o = "url" -> << <<1>>, [s EXCEPT ![h][1] = op[3]] >>
    [] o = "val" -> << <<1>>, [s EXCEPT ![h][2] = op[3]] >>
    [] o = "copy" -> << <<1>>, [s EXCEPT ![h] = s[op[3]]] >>
    [] o = "enc" -> << <<1, EncMsg(Any_id, s[h])>>, s >>
    [] o = "dec" -> LET d == Decode(Any_id, op[3], keep, 100)
                    IN IF d.status = "ok" THEN << <<1>>, [s EXCEPT ![h] = Value(d)] >> ELSE << <<0>>, [s EXCEPT ![h] = Empty] >>
=============================================================================
