------------------------------ MODULE MCHolder ------------------------------
(* Every state of three small holders and every operation enabled in it.    *)
EXTENDS Holder, TLC, Json
CONSTANTS Fam, VMax, Export
VARIABLES s, op, res
V == 0..VMax
I == 1..3
Chains(lo) == UNION {[1..n -> V] : n \in lo..2}
Vals == IF Fam = "C" THEN Chains(0) ELSE IF Fam = "I" THEN Chains(1) ELSE {<<p, v>> : p \in 0..1, v \in V}
States == [I -> Vals \cup {U}]
Both == {<<a, i, v>> : a \in {"set", "ctor"}, i \in I, v \in V}
        \cup {<<a, i, j>> : a \in {"copy", "move", "swap"}, i \in I, j \in I}
        \cup {<<a, x[1], x[2], f>> : a \in {"cctor", "mctor"}, x \in {y \in I \X I : y[1] # y[2]}, f \in 0..1}
        \cup {<<"get", i, f>> : i \in I, f \in 0..3}
        \cup {<<"eq", i, j>> : i \in I, j \in I}
Chain == {<<"deep", i, k, v>> : i \in I, k \in 1..2, v \in V} \cup {<<"push", i, v>> : i \in I, v \in V} \cup {<<"eqv", i, v>> : i \in I, v \in V}
         \cup {<<"bomb", i>> : i \in I} \cup {<<"bombc", x[1], x[2]>> : x \in {y \in I \X I : y[1] # y[2]}}
Ops == IF Fam = "C" THEN
         Both \cup Chain \cup {<<a, i>> : a \in {"reset", "null", "pop", "popc", "has", "eqn"}, i \in I}
         \cup {<<"emplace", i, v>> : i \in I, v \in V} \cup {<<"emplace0", i, 0>> : i \in I} \cup {<<"splice", i, j>> : i \in I, j \in I}
         \cup {<<"mon", i, f>> : i \in I, f \in 0..7} \cup {<<"orelse", i, f, v>> : i \in I, f \in 0..1, v \in V}
       ELSE IF Fam = "I" THEN Both \cup Chain \cup {<<"cmp", i, j>> : i \in I, j \in I}
       ELSE Both \cup {<<a, i>> : a \in {"reset", "null", "has"}, i \in I} \cup {<<a, i, v>> : a \in {"emplace", "valor", "deref"}, i \in I, v \in V}
         \cup {<<"emplace0", i, z>> : i \in I, z \in {0, 5}} \cup {<<"std", i, v, p, f>> : i \in I, v \in V, p \in 0..1, f \in 0..1}
Ok(st, o) == Enabled(Fam, st, o) /\ (o[1] = "bombc" => Fix(st[o[3]]) /\ st[o[3]] # <<>>)
Init == s \in States /\ op \in {o \in Ops : Ok(s, o)} /\ res = Apply(Fam, s, op)
Next == UNCHANGED <<s, op, res>>
Spec == Init /\ [][Next]_<<s, op, res>>
Others(X) == \A k \in I \ X : res[2][k] = s[k]
Laws ==
  /\ TypeOK(Fam, res[2])
  (* independence: an operation touches only the slots it names *)
  /\ op[1] \in {"get", "has", "eq", "eqv", "eqn", "cmp", "mon", "valor"} => res[2] = s
  /\ op[1] \in {"move", "mctor", "swap", "splice"} => Others({op[2], op[3]})
  /\ op[1] \notin {"move", "mctor", "swap", "splice"} => Others({op[2]})
  (* assignment makes source and target equal and self-assignment is harmless *)
  /\ op[1] \in {"copy", "cctor"} => res[2][op[2]] = s[op[3]]
  /\ op[1] \in {"copy", "swap"} \cup (IF Fam = "O" THEN {} ELSE {"move"}) /\ op[2] = op[3] => res[2] = s
  /\ op[1] = "swap" => Swapped(res[2], op[2], op[3]) = s
  /\ op[1] \in {"reset", "null"} => Present(Fam, res[2][op[2]]) = (Fam = "I") /\ Read(Fam, res[2][op[2]]) = (IF Fam = "C" THEN -1 ELSE 0)
Vec == Export => PrintT("VEC " \o ToJson(<<s, op, res>>))
=============================================================================
