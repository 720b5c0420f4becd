------------------------------- MODULE Holder -------------------------------
(* Three slots holding values, and the operations of the library's holders  *)
(* on them.  Three families of holders share this machine:                  *)
(*   "C"  optional_indirect: a possibly empty chain of nodes (head first)   *)
(*   "I"  indirect: a chain with at least one node                          *)
(*   "O"  optional fields: <<present, value>>, value 0 being the default    *)
(* U marks a holder that was moved from (or whose assignment threw): its    *)
(* value is not specified, but it must remain destructible, assignable,     *)
(* copyable and swappable.                                                  *)
(* An operation is a sequence <<name, arguments..>>; Apply gives            *)
(* <<result, next state>>.  U as a result means: not specified.             *)
EXTENDS Integers, Sequences
U == <<-9>>
Default(fam) == IF fam = "C" THEN <<>> ELSE IF fam = "I" THEN <<0>> ELSE <<0, 0>>
Fix(q) == q # U
Tl(c) == IF c = <<>> THEN <<>> ELSE Tail(c)
B(b) == IF b THEN 1 ELSE 0
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
(* what reading a holder gives: the head of the chain, -1 for an exception  *)
Read(fam, q) == IF fam = "O" THEN q[2] ELSE IF q = <<>> THEN -1 ELSE q[1]
Present(fam, q) == IF fam = "O" THEN q[1] = 1 ELSE q # <<>>
Value(fam, v) == IF fam = "O" THEN <<1, v>> ELSE <<v>>
(* members may be strings, and moving a string to itself leaves it unspecified *)
Moved(fam, s, i, j) == IF i = j THEN (IF fam = "O" THEN [s EXCEPT ![i] = U] ELSE s) ELSE [s EXCEPT ![i] = s[j], ![j] = U]
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Needs(op) ==   \* slots whose value the operation reads and reports
  CASE op[1] \in {"get", "has", "mon", "orelse", "deep", "push", "pop", "popc", "valor", "eqv", "eqn", "deref"} -> {op[2]}
    [] op[1] \in {"eq", "cmp", "splice"} -> {op[2], op[3]}
    [] OTHER -> {}
Enabled(fam, s, op) ==
  /\ \A i \in Needs(op) : Fix(s[i])
  /\ op[1] \in {"pop", "popc"} => s[op[2]] # <<>>
  /\ op[1] = "splice" => op[2] # op[3] /\ s[op[2]] # <<>>
  /\ op[1] = "deep" => op[3] <= Len(s[op[2]])
Apply(fam, s, op) ==
  LET a == op[1]
      i == op[2]
      None == <<>>
  IN CASE a \in {"reset", "null"} -> <<None, [s EXCEPT ![i] = Default(fam)]>>
       [] a \in {"set", "emplace", "ctor", "emplace0"} -> <<None, [s EXCEPT ![i] = Value(fam, op[3])]>>
       [] a = "deref" -> <<None, [s EXCEPT ![i] = <<s[i][1], op[3]>>]>>
       [] a \in {"copy", "cctor"} -> <<None, [s EXCEPT ![i] = s[op[3]]]>>
       [] a \in {"move", "mctor"} -> <<None, Moved(fam, s, i, op[3])>>
       [] a = "swap" -> <<None, Swapped(s, i, op[3])>>
       [] a \in {"pop", "popc"} -> <<None, [s EXCEPT ![i] = Tl(s[i])]>>
       [] a = "push" -> <<None, [s EXCEPT ![i] = <<op[3]>> \o s[i]]>>
       [] a = "splice" -> <<None, [s EXCEPT ![i] = s[i] \o s[op[3]], ![op[3]] = U]>>
       [] a = "deep" -> <<None, [s EXCEPT ![i][op[3]] = op[4]]>>
       [] a \in {"bomb", "bombc"} -> <<<<-1>>, [s EXCEPT ![i] = U]>>
       [] a = "std" -> <<None, [s EXCEPT ![i] = IF op[4] = 1 THEN <<1, op[3]>> ELSE <<0, 0>>]>>
       [] a = "get" -> <<<<Read(fam, s[i])>>, s>>
       [] a = "has" -> <<<<B(Present(fam, s[i]))>>, s>>
       [] a = "valor" -> <<<<IF Present(fam, s[i]) THEN s[i][2] ELSE op[3]>>, s>>
       [] a = "mon" -> <<<<IF Present(fam, s[i]) THEN Read(fam, s[i]) ELSE -1>>, s>>
       [] a = "orelse" -> <<IF Present(fam, s[i]) THEN s[i] ELSE <<op[4]>>, IF op[3] = 1 THEN [s EXCEPT ![i] = U] ELSE s>>
       [] a = "eq" -> <<<<B(s[i] = s[op[3]])>>, s>>
       [] a = "eqv" -> <<<<B(s[i] = <<op[3]>>)>>, s>>
       [] a = "eqn" -> <<<<B(s[i] = <<>>)>>, s>>
       [] a = "cmp" -> <<<<B(Less(s[i], s[op[3]])), B(Less(s[op[3]], s[i]))>>, s>>
TypeOK(fam, s) == \A i \in 1..3 : s[i] = U \/ ((fam = "O" => Len(s[i]) = 2 /\ s[i][1] \in 0..1) /\ (fam = "I" => s[i] # <<>>))
=============================================================================
