------------------------------ MODULE FlatMap ------------------------------
(* The ordered unique-key dictionary hpp_proto::flat_map has to be.         *)
(* A map is a sequence of <<key, value>> with strictly increasing keys; a   *)
(* position is a 0-based index into it, Len(m) standing for end().          *)
(* Apply(m, op) is the set of <<result, map afterwards>> the operation may  *)
(* have: a singleton except where bulk construction meets duplicate keys,   *)
(* which may keep any one of the values given for the key.                  *)
EXTENDS Integers, Sequences, FiniteSets
Default == 0     \* the value-initialised mapped value
NKeys(m) == {m[i][1] : i \in 1..Len(m)}
Pos(m, k) == Cardinality({x \in NKeys(m) : x < k})
Has(m, k) == k \in NKeys(m)
Ins(m, k, v) == LET p == Pos(m, k) IN SubSeq(m, 1, p) \o <<<<k, v>>>> \o SubSeq(m, p + 1, Len(m))
Upd(m, k, v) == [m EXCEPT ![Pos(m, k) + 1] = <<k, v>>]
Cut(m, a, b) == SubSeq(m, 1, a) \o SubSeq(m, b + 1, Len(m))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsMap(m) == \A i \in 1..(Len(m) - 1) : m[i][1] < m[i + 1][1]
RECURSIVE InsAll(_, _)
InsAll(m, ps) == IF ps = <<>> THEN m
                 ELSE InsAll(IF Has(m, ps[1][1]) THEN m ELSE Ins(m, ps[1][1], ps[1][2]), Tail(ps))
(* every way of keeping one pair per key *)
RECURSIVE Picks(_)
Picks(ps) == IF ps = <<>> THEN {<<>>}
             ELSE LET k == ps[1][1]
                      same == SelectSeq(ps, LAMBDA p : p[1] = k)
                      rest == SelectSeq(ps, LAMBDA p : p[1] # k)
                  IN {Ins(r, k, same[i][2]) : r \in Picks(rest), i \in 1..Len(same)}
PairLess(p, q) == (p[1] < q[1]) \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE Lex(_, _)
Lex(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
             ELSE IF PairLess(a[1], b[1]) THEN TRUE ELSE IF PairLess(b[1], a[1]) THEN FALSE ELSE Lex(Tail(a), Tail(b))
B(x) == IF x THEN 1 ELSE 0
One(r, m) == {<<r, m>>}
InsertResult(m, k, v) == IF Has(m, k) THEN One(<<Pos(m, k), 0>>, m) ELSE One(<<Pos(m, k), 1>>, Ins(m, k, v))
PosResult(m, k, v) == IF Has(m, k) THEN One(<<Pos(m, k)>>, m) ELSE One(<<Pos(m, k)>>, Ins(m, k, v))
AssignResult(m, k, v) == IF Has(m, k) THEN One(<<Pos(m, k), 0>>, Upd(m, k, v)) ELSE One(<<Pos(m, k), 1>>, Ins(m, k, v))
AssignPos(m, k, v) == IF Has(m, k) THEN One(<<Pos(m, k)>>, Upd(m, k, v)) ELSE One(<<Pos(m, k)>>, Ins(m, k, v))
At(m, k) == m[Pos(m, k) + 1][2]
FindPos(m, k) == IF Has(m, k) THEN Pos(m, k) ELSE Len(m)
Up(m, k) == Pos(m, k) + B(Has(m, k))
Threw == <<-1>>
Apply(m, op) ==
  LET a == op[1] IN
  CASE a = "emplace" -> InsertResult(m, op[3], op[4])
    [] a = "emplace_h" -> PosResult(m, op[4], op[5])
    [] a = "try" -> InsertResult(m, op[3], op[4])
    [] a = "try_d" -> InsertResult(m, op[3], Default)
    [] a = "try_h" -> PosResult(m, op[4], op[5])
    [] a = "ioa" -> AssignResult(m, op[3], op[4])
    [] a = "ioa_h" -> AssignPos(m, op[4], op[5])
    [] a = "alias_try" -> InsertResult(m, op[3], m[op[2] + 1][2])
    [] a = "alias_ioa" -> AssignResult(m, op[3], m[op[2] + 1][2])
    [] a = "idx" -> IF Has(m, op[3]) THEN One(<<At(m, op[3])>>, m) ELSE One(<<Default>>, Ins(m, op[3], Default))
    [] a = "set" -> IF Has(m, op[3]) THEN One(<<>>, Upd(m, op[3], op[4])) ELSE One(<<>>, Ins(m, op[3], op[4]))
    [] a = "at" -> One(IF Has(m, op[3]) THEN <<At(m, op[3])>> ELSE Threw, m)
    [] a = "find" -> One(<<FindPos(m, op[3])>>, m)
    [] a = "lb" -> One(<<Pos(m, op[3])>>, m)
    [] a = "ub" -> One(<<Up(m, op[3])>>, m)
    [] a = "er" -> One(<<Pos(m, op[3]), Up(m, op[3])>>, m)
    [] a = "count" -> One(<<B(Has(m, op[3]))>>, m)
    [] a = "erase_p" -> One(<<op[3]>>, Cut(m, op[3], op[3] + 1))
    [] a = "erase_r" -> One(<<op[2]>>, Cut(m, op[2], op[3]))
    [] a = "erase_k" -> IF Has(m, op[2]) THEN One(<<1>>, Cut(m, Pos(m, op[2]), Pos(m, op[2]) + 1)) ELSE One(<<0>>, m)
    [] a \in {"ins_r", "ins_s"} -> One(<<>>, InsAll(m, op[3]))
    [] a = "assign_il" -> One(<<>>, InsAll(<<>>, op[3]))
    [] a = "clear" -> One(<<>>, <<>>)
    [] a = "size" -> One(<<Len(m), B(m = <<>>)>>, m)
    [] a = "iter" -> One(IF op[2] < 3 THEN m ELSE Rev(m), m)
    [] a = "extract" -> One(m, <<>>)
    [] a = "replace" -> One(<<>>, op[3])
    [] a = "reserve" -> One(<<>>, m)
    [] a = "ctor" -> {<<<<>>, r>> : r \in Picks(op[3])}
    [] a = "ctor_s" -> One(<<>>, op[3])
    [] a = "copy" -> One(<<1>>, m)
    [] a = "swap" -> One(m, op[3])
    [] a = "cmp" -> LET o == op[3] IN One(<<B(m = o), B(m # o), B(Lex(m, o)), B(~Lex(o, m)), B(Lex(o, m)), B(~Lex(m, o))>>, m)
    [] a = "bomb_try" -> One(IF Has(m, op[3]) THEN <<Pos(m, op[3]), 0>> ELSE Threw, m)
    [] a = "bomb_ioa" -> One(Threw, m)
    [] a = "bomb_h" -> One(IF Has(m, op[4]) THEN <<Pos(m, op[4])>> ELSE Threw, m)
============================================================================
