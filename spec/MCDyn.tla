------------------------------- MODULE MCDyn -------------------------------
(* Every operation on every field of every message type, from states that   *)
(* are empty or full around that field; source messages likewise.           *)
EXTENDS Dyn, Json
CONSTANTS Types, Paths, Hows
VARIABLES t, s, b, op, res
vars == <<t, s, b, op, res>>
Pick(S) == CHOOSE x \in S : TRUE
Scal(f, n) ==
  CASE f.kind = "bool" -> <<n % 2>>
    [] f.kind = "enum" /\ f.closed -> IF n = 1 \/ f.vals = {Pick(f.vals)} THEN Pick(f.vals) ELSE Pick(f.vals \ {Pick(f.vals)})
    [] f.kind = "enum" -> IF n = 1 THEN <<1, 0, 0, 0>> ELSE <<255, 255, 255, 255>>
    [] f.kind = "string" -> IF n = 1 THEN <<65, 195, 169>> ELSE <<>>
    [] f.kind = "bytes" -> IF n = 1 THEN <<0, 255>> ELSE <<>>
    [] OTHER -> [i \in 1..Size(f.kind) |-> IF n = 1 THEN i ELSE IF i = Size(f.kind) THEN 128 ELSE 0]
RECURSIVE Rich(_,_,_)
RV(f, d, n) == IF IsMsg(f) THEN (IF d = 0 THEN Default(f.sub) ELSE Rich(f.sub, d - 1, n)) ELSE Scal(f, n)
RichSlot(tt, sl, d, n) == CASE Card(tt, sl) = "implicit" -> RV(Fld(tt, sl, 1), d, n)
                            [] Card(tt, sl) = "optional" -> <<RV(Fld(tt, sl, 1), d, n)>>
                            [] Card(tt, sl) = "repeated" -> IF n = 1 THEN <<RV(Fld(tt, sl, 1), d, 1), RV(Fld(tt, sl, 1), d, 2)>> ELSE <<RV(Fld(tt, sl, 1), d, 2)>>
                            [] Card(tt, sl) = "oneof" -> LET a == IF n = 1 THEN 1 ELSE Len(Schema[tt][sl].f) IN <<a, RV(Fld(tt, sl, a), d, n)>>
Rich(tt, d, n) == [sl \in 1..(Len(Schema[tt]) + 1) |-> IF sl <= Len(Schema[tt]) THEN RichSlot(tt, sl, d, n) ELSE <<>>]
SlotVals(tt, sl) == {Default(tt)[sl], RichSlot(tt, sl, 1, 1), RichSlot(tt, sl, 1, 2)}
                    \cup (IF Card(tt, sl) = "oneof" THEN {<<a, RV(Fld(tt, sl, a), 1, 1)>> : a \in 1..Len(Schema[tt][sl].f)} ELSE {})
Around(tt, sl) == {[base EXCEPT ![sl] = v] : base \in {Default(tt), Rich(tt, 1, 1)}, v \in SlotVals(tt, sl)}
Singular(tt, sl) == Card(tt, sl) # "repeated"
H(x) == x \cap Hows
(* operations on field (sl, a); those with a source message separately      *)
Plain(tt, sl, a) == LET f == Fld(tt, sl, a) IN
  IF Singular(tt, sl) THEN
    (IF IsMsg(f) THEN {<<"emp", <<>>, sl, a, 0, h>> : h \in H({0, 1, 2})}
     ELSE {<<"set", <<>>, sl, a, Scal(f, n), h>> : n \in 1..2, h \in H(0..3 \cup {6, 10} \cup (IF f.kind \in {"string", "bytes"} THEN {4, 5} ELSE {9}) \cup (IF f.kind = "enum" /\ f.closed THEN {7, 8} ELSE {}))}
          \cup {<<"def", <<>>, sl, a, 0, 0>>})
    \cup {<<"reset", <<>>, sl, a, 0, h>> : h \in H(0..3)}
    \cup (IF Card(tt, sl) = "oneof" THEN {<<"clear1", <<>>, sl, a, 0, 0>>} ELSE {})
    \cup {<<"bad", <<>>, sl, a, 0, h>> : h \in H({0, 1, 5, 6} \cup (IF f.kind = "enum" THEN {2} ELSE IF IsMsg(f) THEN {4} ELSE {3}))}
    \cup {<<"alias", <<>>, sl, a, 0, h>> : h \in H(0..2)}
  ELSE
    (IF IsMsg(f) THEN {<<"pushm", <<>>, sl, a, 0, 0>>}
     ELSE {<<"push", <<>>, sl, a, Scal(f, n), h>> : n \in 1..2, h \in H({0} \cup (IF f.kind = "enum" /\ f.closed THEN {1} ELSE {}))}
          \cup {<<"rset", <<>>, sl, a, q, h>> : q \in {<<>>, <<Scal(f, 2)>>, <<Scal(f, 2), Scal(f, 1), Scal(f, 1)>>}, h \in H(0..5 \cup (IF f.kind = "enum" /\ f.closed THEN {6} ELSE {}))}
          \cup {<<"relem", <<>>, sl, a, <<i, Scal(f, n)>>, h>> : i \in 1..3, n \in 1..2, h \in H(0..1)})
    \cup {<<"resize", <<>>, sl, a, n, 0>> : n \in {0, 1, 4}} \cup {<<"reserve", <<>>, sl, a, n, 0>> : n \in {0, 5}}
    \cup {<<"rclear", <<>>, sl, a, 0, h>> : h \in H(0..3)}
    \cup {<<"bad", <<>>, sl, a, 0, h>> : h \in H({0, 3, 5})}
    \cup {<<"alias", <<>>, sl, a, 0, h>> : h \in H(0..2)}
Sourced(tt, sl, a) == LET f == Fld(tt, sl, a) IN
    {<<"clonef", <<>>, sl, a, <<>>, h>> : h \in H(0..1)}
    \cup (IF Singular(tt, sl) /\ IsMsg(f) THEN {<<"setm", <<>>, sl, a, q, h>> : q \in {<<<<sl, a, 1>>>>, <<>>}, h \in H(0..2)} ELSE {})
    \cup (IF ~Singular(tt, sl) /\ IsMsg(f) THEN {<<"rsetm", <<>>, sl, a, <<>>, h>> : h \in H(0..2)} ELSE {})
    \cup {<<"clone", <<>>, sl, a, <<>>, 0>>}
MsgFields(tt) == {x \in (1..Len(Schema[tt])) \X (1..9) : x[2] <= Len(Schema[tt][x[1]].f) /\ IsMsg(Fld(tt, x[1], x[2]))}
(* the same operations one level down: reached through present and missing parts *)
Nested(tt, sl, a) == LET u == Fld(tt, sl, a).sub IN
  UNION {{[o EXCEPT ![2] = <<<<sl, a, i>>>>] : o \in {<<"resetall", <<>>, 1, 1, 0, 0>>, <<"clone", <<>>, 1, 1, <<<<sl, a, i>>>>, 0>>, <<"reset", <<>>, 1, 1, 0, 1>>}
                     \cup (IF Singular(u, 1) /\ ~IsMsg(Fld(u, 1, 1)) THEN {<<"set", <<>>, 1, 1, Scal(Fld(u, 1, 1), 1), 0>>, <<"bad", <<>>, 1, 1, 0, 0>>} ELSE {})} : i \in 1..3}
Cases(tt) ==
  UNION {UNION {(Around(tt, sl) \X {Default(tt)} \X (Plain(tt, sl, a) \cup {<<"resetall", <<>>, sl, 1, 0, 0>>}))
                \cup (Around(tt, sl) \X Around(tt, sl) \X Sourced(tt, sl, a))
                \cup (IF Paths /\ <<sl, a>> \in MsgFields(tt) THEN Around(tt, sl) \X {Default(tt), Rich(tt, 1, 2)} \X Nested(tt, sl, a) ELSE {})
                : a \in 1..Len(Schema[tt][sl].f)} : sl \in 1..Len(Schema[tt])}
Init == \E tt \in Types : \E c \in Cases(tt) : /\ t = tt /\ s = c[1] /\ b = c[2] /\ op = c[3]
                                               /\ res = Apply(tt, c[1], tt, c[2], c[3])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
sl == op[3]
flat == op[2] = <<>>
P == res[2]
Laws ==
  /\ TypeOK(t, s) /\ TypeOK(t, P) /\ TypeOK(t, b)
  (* frame: only the named field or oneof changes *)
  /\ op[1] \notin {"clone", "resetall"} => \A k \in 1..Len(s) : k # (IF flat THEN sl ELSE op[2][1][1]) => P[k] = s[k]
  /\ op[1] \in {"bad", "alias", "reserve"} /\ flat => P = s
  (* every operation but growth is idempotent *)
  /\ op[1] \notin {"push", "pushm"} /\ (flat \/ Card(t, op[2][1][1]) # "repeated") => Apply(t, P, t, b, op) = res
  /\ op[1] = "set" /\ flat => Has(t, P, sl, op[4]) /\ Read(t, P, sl, op[4]) = op[5]
  /\ op[1] = "def" => Has(t, P, sl, op[4]) /\ Read(t, P, sl, op[4]) = Fld(t, sl, op[4]).dflt
  /\ op[1] = "reset" /\ flat /\ Card(t, sl) # "implicit" => ~Has(t, P, sl, op[4])
  /\ op[1] = "reset" /\ flat /\ Card(t, sl) = "oneof" => \A k \in 1..Len(Schema[t][sl].f) : k # op[4] => Has(t, P, sl, k) = Has(t, s, sl, k)
  /\ op[1] = "clone" /\ flat => P = b
  /\ op[1] = "clonef" /\ Card(t, sl) # "oneof" => P[sl] = b[sl]
  /\ op[1] = "clonef" /\ Card(t, sl) = "oneof" => Has(t, P, sl, op[4]) = Has(t, b, sl, op[4])
  /\ op[1] = "rsetm" => P[sl] = b[sl]
  /\ op[1] = "resize" => Len(P[sl]) = op[5]
  /\ \A k \in 1..Len(Schema[t]) : Card(t, k) = "oneof" => Cardinality({a \in 1..Len(Schema[t][k].f) : Has(t, P, k, a)}) <= 1
  /\ At(t, P, op[2]) = Do(TypeAt(t, op[2]), At(t, s, op[2]), t, b, op)[2] \/ (~flat /\ Card(t, op[2][1][1]) = "repeated")
Vec == PrintT("VEC " \o ToJson(<<t, s, b, op, <<res[1], View(t, P)>>>>))
=============================================================================
