----------------------------- MODULE MCLexical -----------------------------
(* Every short text over representatives of the character classes the rules distinguish: the laws of the specification, and the vectors. *)
EXTENDS Lexical, Json, TLC
CONSTANTS NI, NS, NN, Export
VARIABLES a, x
vars == <<a, x>>
\* letter cases, digits, underscore, what paths contain
Idents == {95, 65, 97, 48, 45, 46}
Strs == {0, 7, 9, 10, 13, 32, 34, 39, 47, 48, 55, 56, 63, 65, 92, 97, 110, 120, 127, 128, 255}
Nums == {43, 45, 46, 48, 49, 55, 57, 101, 120, 102}
Of(op) == IF op \in {"str", "com"} THEN Strs ELSE IF op \in {"i32", "u64", "flt", "dbl"} THEN Nums ELSE Idents
Max0(op) == IF op \in {"str", "com"} THEN NS ELSE IF op \in {"i32", "u64", "flt", "dbl"} THEN NN ELSE NI
Init == a \in {"id", "ns", "dot", "fd", "str", "com", "i32", "u64", "flt", "dbl"} /\ x = <<>>
Next == Len(x) < Max0(a) /\ \E c \in Of(a) : x' = Append(x, c) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
\* a reference escape: three octal digits for everything
RefEscape(b) == <<34>> \o FoldSeq(LAMBDA c, acc : acc \o <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>, <<>>, b) \o <<34>>
Laws ==
  /\ (a = "str") => Denotes(RefEscape(x)) = x
  /\ (a = "id") => (Name(x) # Fail => (Good(Name(x)) \/ Name(x) = Append(x, 95)))
  /\ (a \in {"i32", "u64"}) => (Signed(x) # Fail => (Signed(x)[2] = <<0>> \/ Expr(x \o (IF x[1] = 45 THEN <<76,76>> ELSE <<85,76,76>>), 64) = Signed(x)))
  /\ (a \in {"flt", "dbl"}) => (Decimal(x) # Fail => (Decimal(<<48>> \o (IF x[1] = 45 THEN Tail(x) ELSE x))[2] = Decimal(x)[2] /\ (FloatingLiteral(x) \/ Decimal(x \o <<46,48>>) = Decimal(x))))
\* only a keyword and its renaming meet
Apartness == \A k \in Keywords : Good(Name(k)) /\ Name(k) = Append(k, 95) /\ Name(Append(k, 95)) = Name(k)
ASSUME Apartness
Vec == Export => PrintT("VEC " \o ToJson(<<a, x>>))
=============================================================================
