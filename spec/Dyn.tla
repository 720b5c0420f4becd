-------------------------------- MODULE Dyn --------------------------------
(* Dynamic messages as mutable objects: the abstract state of a message is  *)
(* the value of Wire.tla (one component per field or oneof, map fields as   *)
(* repeated entry messages) and every operation of the mutable API is a     *)
(* function of that state.                                                  *)
(*   <<name, path, sl, alt, arg, how>>                                      *)
(* path leads from the top message to the one operated on, <<slot, alt,     *)
(* index>> per step, creating what is missing; how selects among entry      *)
(* points of the API that must not differ.                                  *)
EXTENDS Wire

Fld(t, sl, alt) == Schema[t][sl].f[alt]
Card(t, sl) == Schema[t][sl].card
DefVal(f) == f.dflt
SetSlot(t, s, sl, alt, v) == [s EXCEPT ![sl] = CASE Card(t, sl) = "implicit" -> v
                                             [] Card(t, sl) = "optional" -> <<v>>
                                             [] Card(t, sl) = "oneof" -> <<alt, v>>]
Has(t, s, sl, alt) == CASE Card(t, sl) = "implicit" -> TRUE
                        [] Card(t, sl) = "optional" -> s[sl] # <<>>
                        [] Card(t, sl) = "oneof" -> s[sl] # <<>> /\ s[sl][1] = alt
Val(t, s, sl, alt) == CASE Card(t, sl) = "implicit" -> s[sl]
                        [] Card(t, sl) = "optional" -> s[sl][1]
                        [] Card(t, sl) = "oneof" -> s[sl][2]
(* what value() yields: the default when absent                             *)
Read(t, s, sl, alt) == IF Has(t, s, sl, alt) THEN Val(t, s, sl, alt) ELSE DefVal(Fld(t, sl, alt))
Reads(t, s) == [sl \in 1..Len(Schema[t]) |->
                 IF Card(t, sl) = "repeated" THEN <<>>
                 ELSE [a \in 1..Len(Schema[t][sl].f) |-> IF IsMsg(Fld(t, sl, a)) THEN <<>> ELSE Read(t, s, sl, a)]]
(* a reset field is absent; an inactive oneof member has nothing to reset   *)
Reset(t, s, sl, alt) == CASE Card(t, sl) = "implicit" -> [s EXCEPT ![sl] = ZeroOf(Fld(t, sl, alt).kind)]
                          [] Card(t, sl) = "oneof" -> IF Has(t, s, sl, alt) THEN [s EXCEPT ![sl] = <<>>] ELSE s
                          [] OTHER -> [s EXCEPT ![sl] = <<>>]
---------------------------------------------------------------------------
(* Paths                                                                    *)
SubOf(t, st) == Fld(t, st[1], st[2]).sub
RECURSIVE TypeAt(_,_)
TypeAt(t, p) == IF p = <<>> THEN t ELSE TypeAt(SubOf(t, p[1]), Tail(p))
Elem(q, i) == IF i <= Len(q) THEN i ELSE Len(q) + 1          \* an index beyond the end means one new element
Child(t, s, st) == LET d == Default(SubOf(t, st)) IN
  IF Card(t, st[1]) = "repeated" THEN (IF st[3] <= Len(s[st[1]]) THEN s[st[1]][st[3]] ELSE d)
  ELSE IF Has(t, s, st[1], st[2]) THEN Val(t, s, st[1], st[2]) ELSE d
PutChild(t, s, st, v) ==
  IF Card(t, st[1]) = "repeated"
    THEN LET q == s[st[1]] e == Elem(q, st[3]) IN [s EXCEPT ![st[1]] = IF e <= Len(q) THEN [q EXCEPT ![e] = v] ELSE Append(q, v)]
    ELSE SetSlot(t, s, st[1], st[2], v)
RECURSIVE At(_,_,_)
At(t, s, p) == IF p = <<>> THEN s ELSE At(SubOf(t, p[1]), Child(t, s, p[1]), Tail(p))
RECURSIVE With(_,_,_,_)
With(t, s, p, v) == IF p = <<>> THEN v ELSE PutChild(t, s, p[1], With(SubOf(t, p[1]), Child(t, s, p[1]), Tail(p), v))
---------------------------------------------------------------------------
(* one operation on the message m of type t; b: the whole second message of *)
(* type bt.  Results: <<returned code, m'>>; codes: 0 ok, dynamic_message_errc, 100 out_of_range *)
Pad(q, n, z) == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o [i \in 1..(n - Len(q)) |-> z]
NewElem(f) == IF IsMsg(f) THEN Default(f.sub) ELSE ZeroOf(f.kind)
(* cloning a field: an absent source makes the target absent                *)
CloneField(t, m, o, sl, alt) == IF Card(t, sl) = "repeated" THEN [m EXCEPT ![sl] = o[sl]]
                                ELSE IF Has(t, o, sl, alt) THEN SetSlot(t, m, sl, alt, Val(t, o, sl, alt)) ELSE Reset(t, m, sl, alt)
BadCode(h) == <<3, 1, 4, 3, 6, 3, 1>>[h + 1]
Do(t, m, bt, b, op) ==
  LET sl == op[3] alt == op[4] arg == op[5] how == op[6] IN
  CASE op[1] = "set"      -> <<0, SetSlot(t, m, sl, alt, arg)>>
    [] op[1] = "bad"      -> <<BadCode(how), m>>
    [] op[1] = "def"      -> <<0, SetSlot(t, m, sl, alt, DefVal(Fld(t, sl, alt)))>>
    [] op[1] = "emp"      -> <<0, SetSlot(t, m, sl, alt, Default(Fld(t, sl, alt).sub))>>
    [] op[1] = "reset"    -> <<0, Reset(t, m, sl, alt)>>
    [] op[1] = "clear1"   -> <<0, [m EXCEPT ![sl] = <<>>]>>
    [] op[1] = "setm"     -> IF TypeAt(bt, arg) = Fld(t, sl, alt).sub THEN <<0, SetSlot(t, m, sl, alt, At(bt, b, arg))>> ELSE <<6, m>>
    [] op[1] = "clonef"   -> <<0, CloneField(t, m, At(bt, b, arg), sl, alt)>>
    [] op[1] = "clone"    -> <<0, At(bt, b, arg)>>
    [] op[1] = "resetall" -> <<0, Default(t)>>
    [] op[1] = "alias"    -> <<0, m>>
    [] op[1] = "push"     -> <<0, [m EXCEPT ![sl] = Append(@, arg)]>>
    [] op[1] = "pushm"    -> <<0, [m EXCEPT ![sl] = Append(@, Default(Fld(t, sl, alt).sub))]>>
    [] op[1] = "resize"   -> <<0, [m EXCEPT ![sl] = Pad(@, arg, NewElem(Fld(t, sl, alt)))]>>
    [] op[1] = "reserve"  -> <<0, m>>
    [] op[1] = "rclear"   -> <<0, [m EXCEPT ![sl] = <<>>]>>
    [] op[1] = "rset"     -> <<0, [m EXCEPT ![sl] = arg]>>
    [] op[1] = "rsetm"    -> <<0, [m EXCEPT ![sl] = At(bt, b, arg)[sl]]>>
    [] op[1] = "relem"    -> IF arg[1] <= Len(m[sl]) THEN <<0, [m EXCEPT ![sl][arg[1]] = arg[2]]>> ELSE <<100, m>>
Apply(t, s, bt, b, op) == LET p == op[2] r == Do(TypeAt(t, p), At(t, s, p), bt, b, op) IN <<r[1], With(t, s, p, r[2])>>
(* what the driver reports: the whole message and what value() yields       *)
View(t, s) == <<s, Reads(t, s)>>
---------------------------------------------------------------------------
RECURSIVE TypeOK(_,_)
OneOK(f, v) == IF IsMsg(f) THEN TypeOK(f.sub, v) ELSE IF f.kind \in {"string", "bytes"} THEN \A i \in 1..Len(v) : v[i] \in 0..255 ELSE Len(v) = Size(f.kind)
TypeOK(t, s) == /\ Len(s) = Len(Schema[t]) + 1
                /\ \A sl \in 1..Len(Schema[t]) :
                     CASE Card(t, sl) = "implicit" -> OneOK(Fld(t, sl, 1), s[sl])
                       [] Card(t, sl) = "optional" -> Len(s[sl]) <= 1 /\ \A i \in 1..Len(s[sl]) : OneOK(Fld(t, sl, 1), s[sl][i])
                       [] Card(t, sl) = "repeated" -> \A i \in 1..Len(s[sl]) : OneOK(Fld(t, sl, 1), s[sl][i])
                       [] OTHER -> s[sl] = <<>> \/ (Len(s[sl]) = 2 /\ s[sl][1] \in 1..Len(Schema[t][sl].f) /\ OneOK(Fld(t, sl, s[sl][1]), s[sl][2]))
=============================================================================
