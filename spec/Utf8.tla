------------------------------- MODULE Utf8 -------------------------------
(* Well-formed UTF-8 (Unicode, table 3-7) as an automaton over bytes.      *)
(* States: 0 between characters; 1,2,3 that many continuation bytes left;  *)
(* 4..7 the second byte is restricted (after E0, ED, F0, F4); 9 ill-formed *)
EXTENDS Integers, Sequences
UStep(q, c) ==
  CASE q = 0 -> IF c < 128 THEN 0
                ELSE IF c \in 194..223 THEN 1
                ELSE IF c = 224 THEN 4 ELSE IF c = 237 THEN 5
                ELSE IF c \in 225..239 THEN 2
                ELSE IF c = 240 THEN 6 ELSE IF c = 244 THEN 7
                ELSE IF c \in 241..243 THEN 3 ELSE 9
    [] q \in 1..3 -> IF c \in 128..191 THEN q - 1 ELSE 9
    [] q = 4 -> IF c \in 160..191 THEN 1 ELSE 9
    [] q = 5 -> IF c \in 128..159 THEN 1 ELSE 9
    [] q = 6 -> IF c \in 144..191 THEN 2 ELSE 9
    [] q = 7 -> IF c \in 128..143 THEN 2 ELSE 9
    [] OTHER -> 9
RECURSIVE URun(_,_,_)
URun(q, b, i) == IF i > Len(b) THEN q ELSE URun(UStep(q, b[i]), b, i + 1)
WellFormed(b) == URun(0, b, 1) = 0
(* the UTF-8 form of a scalar value                                         *)
EncodeChar(u) == IF u < 128 THEN <<u>>
                 ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
                 ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
                 ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
ScalarValue(u) == u <= 1114111 /\ (u < 55296 \/ u > 57343)
===========================================================================
