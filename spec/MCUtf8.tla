------------------------------ MODULE MCUtf8 ------------------------------
(* Every byte string up to length N over an alphabet holding the borders of *)
(* every class: the automaton accepts exactly the concatenations of encoded *)
(* scalar values, and the verdicts are exported for replay.                 *)
EXTENDS Utf8, TLC, Json
CONSTANT N, Export
Alphabet == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 243, 244, 245, 255}
VARIABLES b, q
Init == b = <<>> /\ q = 0
Next == /\ Len(b) < N
        /\ \E c \in Alphabet : b' = Append(b, c) /\ q' = UStep(q, c)
Spec == Init /\ [][Next]_<<b, q>>
(* decoding by value: the declarative definition *)
Cont(c) == c \in 128..191
CharAt(p) == \* length of the well-formed character at p, 0 if there is none
  LET c == b[p]  n == IF c < 128 THEN 1 ELSE IF c \in 192..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..247 THEN 4 ELSE 9
  IN IF p + n - 1 > Len(b) THEN 0
     ELSE IF \E i \in 1..(n-1) : ~Cont(b[p+i]) THEN 0
     ELSE LET u == CASE n = 1 -> c
                     [] n = 2 -> (c - 192) * 64 + b[p+1] - 128
                     [] n = 3 -> (c - 224) * 4096 + (b[p+1] - 128) * 64 + b[p+2] - 128
                     [] n = 4 -> (c - 240) * 262144 + (b[p+1] - 128) * 4096 + (b[p+2] - 128) * 64 + b[p+3] - 128
          IN IF ScalarValue(u) /\ EncodeChar(u) = SubSeq(b, p, p + n - 1) THEN n ELSE 0
RECURSIVE Chars(_)
Chars(p) == IF p > Len(b) THEN TRUE ELSE LET n == CharAt(p) IN n > 0 /\ Chars(p + n)
Agrees == (q = 0) = Chars(1) /\ WellFormed(b) = (q = 0)
(* no ill-formed string becomes well-formed by going on *)
Vec == Export => PrintT("VEC " \o ToJson(<<b, IF q = 0 THEN 1 ELSE 0>>))
===========================================================================
