----------------------------- MODULE MCFlatMap -----------------------------
(* Every map over a small domain and every operation on it, with the laws   *)
(* of a dictionary checked on each transition, exported for replay.         *)
EXTENDS FlatMap, TLC, Json
CONSTANTS KMax, VMax, L, Export
VARIABLES m, op, res
vars == <<m, op, res>>
K == 0..KMax
V == 0..VMax
Pair == {<<k, v>> : k \in K, v \in V}
Seqs(n) == UNION {[1..j -> Pair] : j \in 0..n}
Maps == {InsAll(<<>>, s) : s \in Seqs(KMax + 1)}
Sorted(n) == {s \in Maps : Len(s) <= n}
F(n) == 0..(n - 1)
Ops(s) ==
  LET P == 0..(Len(s) - 1)
      H == 0..Len(s)
  IN {<<"emplace", f, k, v>> : f \in F(5), k \in K, v \in V}
     \cup {<<"emplace_h", f, h, k, v>> : f \in F(4), h \in H, k \in K, v \in V}
     \cup {<<"try", f, k, v>> : f \in F(2), k \in K, v \in V}
     \cup {<<"try_d", f, k>> : f \in F(2), k \in K}
     \cup {<<"try_h", f, h, k, v>> : f \in F(2), h \in H, k \in K, v \in V}
     \cup {<<"ioa", f, k, v>> : f \in F(4), k \in K, v \in V}
     \cup {<<"ioa_h", f, h, k, v>> : f \in F(2), h \in H, k \in K, v \in V}
     \cup {<<a, p, k>> : a \in {"alias_try", "alias_ioa"}, p \in P, k \in K}
     \cup {<<"idx", f, k>> : f \in F(2), k \in K}
     \cup {<<"set", f, k, v>> : f \in F(2), k \in K, v \in V}
     \cup {<<"at", f, k>> : f \in F(2), k \in K}
     \cup {<<a, f, k>> : a \in {"find", "lb", "ub", "er"}, f \in F(4), k \in -1..(KMax + 1)}
     \cup {<<"count", f, k>> : f \in F(4), k \in K}
     \cup {<<"erase_p", f, p>> : f \in F(2), p \in P}
     \cup {<<"erase_k", k>> : k \in K}
     \cup {<<"erase_r", xy[1], xy[2]>> : xy \in {z \in H \X H : z[1] <= z[2]}}
     \cup {<<"ins_r", f, s2>> : f \in F(2), s2 \in Seqs(L)}
     \cup {<<"ins_s", f, s2>> : f \in F(2), s2 \in Sorted(L + 1)}
     \cup {<<"assign_il", 0, s2>> : s2 \in Seqs(L)}
     \cup {<<"clear">>, <<"size">>, <<"extract">>}
     \cup {<<"iter", f>> : f \in F(6)}
     \cup {<<"replace", 0, s2>> : s2 \in Sorted(L)}
     \cup {<<"reserve", n>> : n \in {0, 3, 9}}
     \cup {<<"copy", f>> : f \in F(7)}
     \cup {<<"swap", f, s2>> : f \in F(2), s2 \in Sorted(L)}
     \cup {<<"cmp", 0, s2>> : s2 \in Maps}
     \cup {<<"bomb_try", f, k>> : f \in F(2), k \in K}
     \cup {<<"bomb_ioa", f, k>> : f \in F(2), k \in K}
     \cup {<<"bomb_h", f, h, k>> : f \in F(2), h \in H, k \in K}
     \cup (IF s = <<>> THEN {<<"ctor", f, s2>> : f \in F(9), s2 \in Seqs(L + 1)} \cup {<<"ctor_s", f, s2>> : f \in F(6), s2 \in Maps} ELSE {})
Init == m \in Maps /\ op \in Ops(m) /\ res = Apply(m, op)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws ==
  /\ res # {}
  /\ \A r \in res :
       LET q == r[2] IN
       /\ IsMap(q)
       (* a new entry appears exactly if the operation says so *)
       /\ op[1] \in {"emplace", "try", "try_d", "ioa"} => Len(q) = Len(m) + r[1][2] /\ Has(q, op[3])
       /\ op[1] \in {"ioa", "set"} => At(q, op[3]) = op[4]
       (* a hint never changes the outcome *)
       /\ op[1] = "emplace_h" => Apply(m, <<"emplace", 0, op[4], op[5]>>) = {<<<<r[1][1], Len(q) - Len(m)>>, q>>}
       /\ op[1] = "try_h" => Apply(m, <<"try", 0, op[4], op[5]>>) = {<<<<r[1][1], Len(q) - Len(m)>>, q>>}
       /\ op[1] = "ioa_h" => Apply(m, <<"ioa", 0, op[4], op[5]>>) = {<<<<r[1][1], Len(q) - Len(m)>>, q>>}
       (* what was erased is gone, everything else is where it was *)
       /\ op[1] = "erase_k" => ~Has(q, op[2]) /\ \A k \in NKeys(m) \ {op[2]} : Has(q, k) /\ At(q, k) = At(m, k)
       /\ op[1] \in {"find", "lb", "ub", "er", "count", "at", "size", "iter", "cmp", "reserve", "copy"} => q = m
       /\ op[1] \in {"ins_r", "ins_s"} => NKeys(q) = NKeys(m) \cup NKeys(op[3]) /\ \A k \in NKeys(m) : At(q, k) = At(m, k)
Vec == Export => PrintT("VEC " \o ToJson(<<m, op, res>>))
============================================================================
