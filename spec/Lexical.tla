------------------------------- MODULE Lexical -------------------------------
(* The lexical layer of C++, as far as generated headers use it, and what the
   emitter of the plugin owes it.  Texts are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* texts of the specification as bytes (the comment says which)
\* alignas alignof asm auto bool break case catch char char8_t char16_t char32_t class concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept nullptr operator private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while and and_eq bitand bitor compl not not_eq or or_eq xor xor_eq NULL
Keywords == {
  <<97,108,105,103,110,97,115>>,
  <<97,108,105,103,110,111,102>>,
  <<97,115,109>>,
  <<97,117,116,111>>,
  <<98,111,111,108>>,
  <<98,114,101,97,107>>,
  <<99,97,115,101>>,
  <<99,97,116,99,104>>,
  <<99,104,97,114>>,
  <<99,104,97,114,56,95,116>>,
  <<99,104,97,114,49,54,95,116>>,
  <<99,104,97,114,51,50,95,116>>,
  <<99,108,97,115,115>>,
  <<99,111,110,99,101,112,116>>,
  <<99,111,110,115,116>>,
  <<99,111,110,115,116,101,118,97,108>>,
  <<99,111,110,115,116,101,120,112,114>>,
  <<99,111,110,115,116,105,110,105,116>>,
  <<99,111,110,115,116,95,99,97,115,116>>,
  <<99,111,110,116,105,110,117,101>>,
  <<99,111,95,97,119,97,105,116>>,
  <<99,111,95,114,101,116,117,114,110>>,
  <<99,111,95,121,105,101,108,100>>,
  <<100,101,99,108,116,121,112,101>>,
  <<100,101,102,97,117,108,116>>,
  <<100,101,108,101,116,101>>,
  <<100,111>>,
  <<100,111,117,98,108,101>>,
  <<100,121,110,97,109,105,99,95,99,97,115,116>>,
  <<101,108,115,101>>,
  <<101,110,117,109>>,
  <<101,120,112,108,105,99,105,116>>,
  <<101,120,112,111,114,116>>,
  <<101,120,116,101,114,110>>,
  <<102,97,108,115,101>>,
  <<102,108,111,97,116>>,
  <<102,111,114>>,
  <<102,114,105,101,110,100>>,
  <<103,111,116,111>>,
  <<105,102>>,
  <<105,110,108,105,110,101>>,
  <<105,110,116>>,
  <<108,111,110,103>>,
  <<109,117,116,97,98,108,101>>,
  <<110,97,109,101,115,112,97,99,101>>,
  <<110,101,119>>,
  <<110,111,101,120,99,101,112,116>>,
  <<110,117,108,108,112,116,114>>,
  <<111,112,101,114,97,116,111,114>>,
  <<112,114,105,118,97,116,101>>,
  <<112,114,111,116,101,99,116,101,100>>,
  <<112,117,98,108,105,99>>,
  <<114,101,103,105,115,116,101,114>>,
  <<114,101,105,110,116,101,114,112,114,101,116,95,99,97,115,116>>,
  <<114,101,113,117,105,114,101,115>>,
  <<114,101,116,117,114,110>>,
  <<115,104,111,114,116>>,
  <<115,105,103,110,101,100>>,
  <<115,105,122,101,111,102>>,
  <<115,116,97,116,105,99>>,
  <<115,116,97,116,105,99,95,97,115,115,101,114,116>>,
  <<115,116,97,116,105,99,95,99,97,115,116>>,
  <<115,116,114,117,99,116>>,
  <<115,119,105,116,99,104>>,
  <<116,101,109,112,108,97,116,101>>,
  <<116,104,105,115>>,
  <<116,104,114,101,97,100,95,108,111,99,97,108>>,
  <<116,104,114,111,119>>,
  <<116,114,117,101>>,
  <<116,114,121>>,
  <<116,121,112,101,100,101,102>>,
  <<116,121,112,101,105,100>>,
  <<116,121,112,101,110,97,109,101>>,
  <<117,110,105,111,110>>,
  <<117,110,115,105,103,110,101,100>>,
  <<117,115,105,110,103>>,
  <<118,105,114,116,117,97,108>>,
  <<118,111,105,100>>,
  <<118,111,108,97,116,105,108,101>>,
  <<119,99,104,97,114,95,116>>,
  <<119,104,105,108,101>>,
  <<97,110,100>>,
  <<97,110,100,95,101,113>>,
  <<98,105,116,97,110,100>>,
  <<98,105,116,111,114>>,
  <<99,111,109,112,108>>,
  <<110,111,116>>,
  <<110,111,116,95,101,113>>,
  <<111,114>>,
  <<111,114,95,101,113>>,
  <<120,111,114>>,
  <<120,111,114,95,101,113>>,
  <<78,85,76,76>>}

Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Start(c) == c = 95 \/ Upper(c) \/ c \in 97..122
Legal(x) == Len(x) > 0 /\ Start(x[1]) /\ \A i \in 2..Len(x) : Start(x[i]) \/ Digit(x[i])
Has(x, y) == \E i \in 1..(Len(x) - Len(y) + 1) : SubSeq(x, i, i + Len(y) - 1) = y
ReservedName(x) == Has(x, <<95, 95>>) \/ (Len(x) > 1 /\ x[1] = 95 /\ Upper(x[2]))
Spell(x) == IF x \in Keywords THEN Append(x, 95) ELSE x
Good(x) == Legal(x) /\ x \notin Keywords /\ ~ReservedName(x)
Fail == <<>>
Name(x) == IF Legal(x) /\ ~ReservedName(x) THEN Spell(x) ELSE Fail
\* namespaces are spelled as protobuf's own C++ generator spells them, reserved or not
Space(x) == IF Legal(x) THEN Spell(x) ELSE Fail
Word(x, w) == IF x[Len(x)] = 95 THEN x \o w ELSE x \o <<95>> \o w
Apart(x, w) == IF x[Len(x)] = 95 THEN x \o w ELSE Append(x, 95)

RECURSIVE Split(_, _)
Split(x, sep) ==
  LET P == {i \in 1..Len(x) : x[i] = sep} IN
  IF P = {} THEN <<x>>
  ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j IN <<SubSeq(x, 1, i - 1)>> \o Split(SubSeq(x, i + 1, Len(x)), sep)
RECURSIVE Join(_)
Join(xs) == IF Len(xs) = 0 THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<58, 58>> \o Join(Tail(xs))
\* [ok, text]
Dotted(x) ==
  IF Len(x) = 0 THEN [ok |-> TRUE, y |-> <<>>]
  ELSE LET w == Split(x, 46)  s == [i \in 1..Len(w) |-> Name(w[i])] IN
       IF \E i \in 1..Len(s) : s[i] = Fail THEN [ok |-> FALSE, y |-> <<>>] ELSE [ok |-> TRUE, y |-> Join(s)]
ProtoName(p, x) ==              \* p: a namespace already spelled
  IF x = <<46>> THEN [ok |-> TRUE, y |-> p]
  ELSE IF Len(x) > 0 /\ x[1] = 46
  THEN LET d == Dotted(Tail(x)) IN
       IF ~d.ok \/ Len(p) = 0 THEN d ELSE [ok |-> TRUE, y |-> p \o <<58, 58>> \o d.y]
  ELSE Dotted(x)

\* the namespace of a file's descriptor: one component for each of its path, other characters made underscores
Root == <<104,112,112,95,112,114,111,116,111>> \o <<58, 58>> \o <<102,105,108,101,95,100,101,115,99,114,105,112,116,111,114,115>>
Suffix == <<46,112,114,111,116,111>>
Ends(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Component(x) ==
  IF Len(x) = 0 THEN Fail
  ELSE LET a == [i \in 1..Len(x) |-> IF Start(x[i]) \/ Digit(x[i]) THEN x[i] ELSE 95]
           b == IF Digit(a[1]) THEN <<95>> \o a ELSE a
           c == Spell(b) IN
       IF ReservedName(c) THEN Fail ELSE c
FileSpace(x, over) ==           \* over: <<>> or <<name>>
  IF Len(x) = 0 \/ x[1] = 47 \/ ~Ends(x, Suffix) THEN [ok |-> FALSE, y |-> <<>>]
  ELSE LET c == Split(x, 47)
           s == [i \in 1..Len(c) |-> IF i = Len(c) /\ Len(over) = 1
                                     THEN (IF Legal(over[1]) /\ ~ReservedName(Spell(over[1])) THEN Spell(over[1]) ELSE Fail)
                                     ELSE Component(c[i])] IN
       IF \E i \in 1..Len(s) : s[i] = Fail THEN [ok |-> FALSE, y |-> <<>>]
       ELSE [ok |-> TRUE, y |-> Root \o <<58, 58>> \o Join(s)]

(* narrow string literals: what the compiler makes of the characters between the quotes *)
Oct(c) == c \in 48..55
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Simple == [c \in {97, 98, 116, 110, 118, 102, 114, 34, 39, 92, 63} |->
             CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c]
Plain(c) == c \in 32..126 /\ c # 34 /\ c # 92       \* the same in every source and execution character set
Bad == <<-1>>
RECURSIVE Scan(_, _, _)
Scan(t, i, acc) ==             \* t without its quotes
  IF i > Len(t) THEN acc
  ELSE IF Plain(t[i]) THEN
    (IF t[i] = 63 /\ i + 2 <= Len(t) /\ t[i + 1] = 63 /\ t[i + 2] \in {61, 47, 39, 40, 41, 33, 60, 62, 45} THEN Bad    \* a trigraph
     ELSE Scan(t, i + 1, Append(acc, t[i])))
  ELSE IF t[i] # 92 \/ i = Len(t) THEN Bad
  ELSE IF t[i + 1] \in DOMAIN Simple THEN Scan(t, i + 2, Append(acc, Simple[t[i + 1]]))
  ELSE IF Oct(t[i + 1]) THEN
    LET n == IF i + 3 <= Len(t) /\ Oct(t[i + 2]) /\ Oct(t[i + 3]) THEN 3 ELSE IF i + 2 <= Len(t) /\ Oct(t[i + 2]) THEN 2 ELSE 1
        v == CASE n = 1 -> t[i + 1] - 48 [] n = 2 -> ((t[i + 1] - 48) * 8) + (t[i + 2] - 48)
               [] OTHER -> ((t[i + 1] - 48) * 64) + ((t[i + 2] - 48) * 8) + (t[i + 3] - 48) IN
    IF v > 255 THEN Bad ELSE Scan(t, i + 1 + n, Append(acc, v))
  ELSE IF t[i + 1] = 120 THEN
    LET D == {k \in 0..(Len(t) - i - 1) : \A j \in 1..k : HexV(t[i + 1 + j]) >= 0}
        n == CHOOSE k \in D : \A j \in D : j <= k
        v == IF n = 1 THEN HexV(t[i + 2]) ELSE IF n = 2 THEN (HexV(t[i + 2]) * 16) + HexV(t[i + 3]) ELSE -1 IN
    IF v < 0 THEN Bad ELSE Scan(t, i + 2 + n, Append(acc, v))
  ELSE Bad
Denotes(t) == IF Len(t) < 2 \/ t[1] # 34 \/ t[Len(t)] # 34 THEN Bad ELSE Scan(SubSeq(t, 2, Len(t) - 1), 1, <<>>)

\* a text in a line comment stays in that comment
InComment(t) == /\ \A i \in 1..Len(t) : t[i] \in 32..126
                /\ Len(t) > 0 => t[Len(t)] # 92
                /\ ~Has(t, <<63, 63, 47>>)
\* a quoted header name stays one
HeaderName(t) == Len(t) > 2 /\ t[1] = 34 /\ t[Len(t)] = 34 /\ \A i \in 2..(Len(t) - 1) : t[i] >= 32 /\ t[i] # 34 /\ t[i] # 92

(* numbers: magnitudes as 12 limbs of 8 bits, the least first *)
Limbs == 12
Zero == [i \in 1..Limbs |-> 0]
RECURSIVE Carry(_, _, _, _)
Carry(m, base, c, i) == IF i > Limbs THEN (IF c > 0 THEN Fail ELSE m) ELSE Carry([m EXCEPT ![i] = ((m[i] * base) + c) % 256], base, ((m[i] * base) + c) \div 256, i + 1)
RECURSIVE Num(_, _, _, _)
Num(x, base, i, m) ==          \* Fail: not a number of that base;  Huge: too large for 12 limbs
  IF i > Len(x) THEN m
  ELSE IF HexV(x[i]) < 0 \/ HexV(x[i]) >= base THEN Fail
  ELSE LET n == Carry(m, base, HexV(x[i]), 1) IN IF n = Fail THEN (IF \A j \in i..Len(x) : HexV(x[j]) \in 0..(base - 1) THEN <<0>> ELSE Fail) ELSE Num(x, base, i + 1, n)
Radix(x) == IF Len(x) >= 2 /\ x[1] = 48 /\ x[2] \in {88, 120} THEN 16 ELSE IF Len(x) > 1 /\ x[1] = 48 THEN 8 ELSE 10
Magnitude(x) ==                \* of an unsigned text in the notation of C and of protobuf
  IF Len(x) = 0 THEN Fail
  ELSE LET r == Radix(x)  d == IF r = 16 THEN SubSeq(x, 3, Len(x)) ELSE IF r = 8 THEN Tail(x) ELSE x IN
       IF Len(d) = 0 THEN Fail ELSE Num(d, r, 1, Zero)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == IF a = <<0>> THEN FALSE ELSE LeqFrom(a, b, Limbs)
Pow(n) == [i \in 1..Limbs |-> IF i = (n \div 8) + 1 THEN 2 ^ (n % 8) ELSE 0]        \* 2^n
Ones(n) == [i \in 1..Limbs |-> IF i <= n \div 8 THEN 255 ELSE IF i = (n \div 8) + 1 THEN (2 ^ (n % 8)) - 1 ELSE 0]   \* 2^n - 1
\* <<negative, magnitude>> of a schema's number, or Fail
Signed(x) ==
  IF Len(x) = 0 THEN Fail
  ELSE LET s == x[1] \in {43, 45}  m == Magnitude(IF s THEN Tail(x) ELSE x) IN
       IF m = Fail THEN Fail ELSE <<IF x[1] = 45 /\ m # Zero THEN 1 ELSE 0, m>>
InRange(v, bits, uns) == IF uns THEN v[1] = 0 /\ Leq(v[2], Ones(bits)) ELSE Leq(v[2], IF v[1] = 1 THEN Pow(bits - 1) ELSE Ones(bits - 1))

\* what an expression of the form [+-] literal [- 1] evaluates to, without leaving the type its literal has; else Fail
RECURSIVE Unsuffixed(_)
Unsuffixed(x) == IF Len(x) > 0 /\ x[Len(x)] \in {85, 117, 76, 108} THEN Unsuffixed(SubSeq(x, 1, Len(x) - 1)) ELSE x
LitBits(suf) ==                \* value bits of the type the suffix selects (int first without one: the literal has to fit it)
  CASE suf = <<>> -> 31 [] suf \in {<<85>>, <<117>>} -> 32 [] suf \in {<<76,76>>, <<108,108>>, <<76>>, <<108>>} -> 63
    [] suf \in {<<85,76,76>>, <<117,108,108>>, <<85,76>>, <<117,108>>, <<76,76,85>>, <<108,108,117>>} -> 64 [] OTHER -> 0
Literal(x, bits) ==            \* magnitude of a literal whose type has at most that many value bits
  LET d == Unsuffixed(x)  suf == SubSeq(x, Len(d) + 1, Len(x))  m == Magnitude(d) IN
  IF m = Fail \/ LitBits(suf) = 0 \/ LitBits(suf) > bits \/ ~Leq(m, Ones(LitBits(suf))) THEN Fail ELSE m
Plus1(m) == Carry(m, 1, 1, 1)
Expr(x, bits) ==
  IF Len(x) = 0 THEN Fail
  ELSE LET neg == x[1] = 45
           y == IF x[1] \in {43, 45} THEN Tail(x) ELSE x
           less == Len(y) > 2 /\ SubSeq(y, Len(y) - 1, Len(y)) = <<45, 49>>
           m == Literal(IF less THEN SubSeq(y, 1, Len(y) - 2) ELSE y, bits) IN
       IF m = Fail \/ (less /\ ~neg) THEN Fail
       ELSE IF less THEN <<1, Plus1(m)>> ELSE <<IF neg /\ m # Zero THEN 1 ELSE 0, m>>

(* decimal fractions: <<negative, digits without zeros at either end, exponent>>, value 0.d1d2d3... * 10^exponent *)
RECURSIVE LTrim(_)
LTrim(x) == IF Len(x) > 0 /\ x[1] = 48 THEN LTrim(Tail(x)) ELSE x
RECURSIVE RTrim(_)
RTrim(x) == IF Len(x) > 0 /\ x[Len(x)] = 48 THEN RTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE Small(_, _, _)
Small(x, i, v) == IF i > Len(x) THEN v ELSE IF ~Digit(x[i]) THEN -99999 ELSE Small(x, i + 1, IF v > 9999 THEN 9999 ELSE (v * 10) + (x[i] - 48))
AllDigits(x) == \A i \in 1..Len(x) : Digit(x[i])
Decimal(x) ==                  \* optional minus, digits with at most one point, optional exponent;  Fail otherwise
  LET neg == Len(x) > 0 /\ x[1] = 45
      u == IF neg THEN Tail(x) ELSE x
      E == {i \in 1..Len(u) : u[i] \in {69, 101}}
      e == IF E = {} THEN Len(u) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
      man == SubSeq(u, 1, e - 1)
      expt == SubSeq(u, e + 1, Len(u))
      es == IF Len(expt) > 0 /\ expt[1] \in {43, 45} THEN Tail(expt) ELSE expt
      pts == {i \in 1..Len(man) : man[i] = 46}
      pt == IF pts = {} THEN Len(man) + 1 ELSE CHOOSE i \in pts : TRUE
      ip == SubSeq(man, 1, pt - 1)
      fp == SubSeq(man, pt + 1, Len(man))
      all == ip \o fp
      dig == LTrim(all) IN
  IF Cardinality(pts) > 1 \/ Len(all) = 0 \/ ~AllDigits(all) \/ (E # {} /\ (Len(es) = 0 \/ ~AllDigits(es))) THEN Fail
  ELSE LET ex == IF E = {} THEN 0 ELSE (IF expt[1] = 45 THEN -1 ELSE 1) * Small(es, 1, 0) IN
       IF dig = <<>> THEN <<IF neg THEN 1 ELSE 0, <<>>, 0>>
       ELSE <<IF neg THEN 1 ELSE 0, RTrim(dig), (Len(ip) - (Len(all) - Len(dig))) + ex>>
RECURSIVE DigLt(_, _, _)
DigLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE DigLt(a, b, i + 1)
DecLt(a, b) == IF a[2] = <<>> THEN b[2] # <<>> ELSE IF b[2] = <<>> THEN FALSE ELSE IF a[3] # b[3] THEN a[3] < b[3] ELSE DigLt(a[2], b[2], 1)   \* magnitudes
\* half an ulp above the largest finite number, and the smallest number
OverF == Decimal(<<51,52,48,50,56,50,51,53,54,55,55,57,55,51,51,54,54,49,54,51,55,53,51,57,51,57,53,52,53,56,49,52,50,53,54,56,52,52,56>>)
OverD == Decimal(<<49,46,55,57,55,54,57,51,49,51,52,56,54,50,51,49,53,56,48,55,57,51,55,50,56,57,55,49,52,48,53,51,48,51,52,49,53,48,55,57,57,51,52,49,51,50,55,49,48,48,51,55,56,50,54,57,51,54,49,55,51,55,55,56,57,56,48,52,52,52,57,54,56,50,57,50,55,54,52,55,53,48,57,52,54,54,52,57,48,49,55,57,55,55,53,56,55,50,48,55,48,57,54,51,51,48,50,56,54,52,49,54,54,57,50,56,56,55,57,49,48,57,52,54,53,53,53,53,52,55,56,53,49,57,52,48,52,48,50,54,51,48,54,53,55,52,56,56,54,55,49,53,48,53,56,50,48,54,56,49,57,48,56,57,48,50,48,48,48,55,48,56,51,56,51,54,55,54,50,55,51,56,53,52,56,52,53,56,49,55,55,49,49,53,51,49,55,54,52,52,55,53,55,51,48,50,55,48,48,54,57,56,53,53,53,55,49,51,54,54,57,53,57,54,50,50,56,52,50,57,49,52,56,49,57,56,54,48,56,51,52,57,51,54,52,55,53,50,57,50,55,49,57,48,55,52,49,54,56,52,52,52,51,54,53,53,49,48,55,48,52,51,52,50,55,49,49,53,53,57,54,57,57,53,48,56,48,57,51,48,52,50,56,56,48,49,55,55,57,48,52,49,55,52,52,57,55,55,57,50,101,51,48,56>>)
LeastF == Decimal(<<49,46,53,101,45,52,53>>)
LeastD == Decimal(<<53,101,45,51,50,52>>)
Over(isf) == IF isf THEN OverF ELSE OverD
Least(isf) == IF isf THEN LeastF ELSE LeastD
TypeName(isf) == IF isf THEN <<102,108,111,97,116>> ELSE <<100,111,117,98,108,101>>
Strip(x, pre, post) == IF Len(x) >= Len(pre) + Len(post) /\ SubSeq(x, 1, Len(pre)) = pre /\ Ends(x, post) THEN SubSeq(x, Len(pre) + 1, Len(x) - Len(post)) ELSE Fail
FloatingLiteral(x) == Decimal(x) # Fail /\ \E i \in 1..Len(x) : x[i] \in {46, 69, 101}
\* the decimal number a floating expression of the given type denotes
FloatExpr(x, isf) ==
  LET c == Strip(x, <<115,116,97,116,105,99,95,99,97,115,116,60>> \o TypeName(isf) \o <<62,40>>, <<41>>)
      y == IF c = Fail THEN x ELSE c
      f == Len(y) > 0 /\ y[Len(y)] \in {70, 102}
      z == IF f THEN SubSeq(y, 1, Len(y) - 1) ELSE y IN
  IF ~FloatingLiteral(z) \/ (isf # f /\ c = Fail) THEN Fail ELSE Decimal(z)
Special(x, isf) ==             \* how nan and the infinities are written
  LET L == <<115,116,100,58,58,110,117,109,101,114,105,99,95,108,105,109,105,116,115,60>> \o TypeName(isf) \o <<62,58,58>> IN
  CASE x = <<110,97,110>> -> L \o <<113,117,105,101,116,95,78,97,78,40,41>> [] x = <<105,110,102>> -> L \o <<105,110,102,105,110,105,116,121,40,41>> [] x = <<45,105,110,102>> -> <<45>> \o L \o <<105,110,102,105,110,105,116,121,40,41>> [] OTHER -> Fail

(* what may come out of a call of the emitter: a = operation, x = its arguments, ok, y = the text *)
IntWidth(a) == IF a \in {"i32", "u32"} THEN 32 ELSE 64
Allowed(a, x, ok, y) ==
  CASE a = "id" -> LET n == Name(x[1]) IN ok = (n # Fail) /\ (ok => (y = n /\ Good(y)))
    [] a = "ns" -> LET n == Space(x[1]) IN ok = (n # Fail) /\ (ok => y = n)
    [] a = "app" -> y = Word(Name(x[1]), Name(x[2]))
    [] a = "dis" -> y = Apart(Name(x[1]), Name(x[2]))
    [] a = "dot" -> LET d == Dotted(x[1]) IN ok = d.ok /\ (ok => y = d.y)
    [] a = "qn" -> LET d == ProtoName(Dotted(x[1]).y, x[2]) IN ok = d.ok /\ (ok => y = d.y)
    [] a = "fd" -> LET d == FileSpace(x[1], Tail(x)) IN
                   ok = d.ok /\ (ok => (y = d.y \/ y = d.y \o <<58, 58>> \o <<102,105,108,101,95,100,101,115,99,114,105,112,116,111,114,95>>))
    [] a = "str" -> ok /\ Denotes(y) = x[1]
    [] a = "com" -> ok /\ InComment(y)
    [] a = "inc" -> \* directory prefix, file, suffix
         LET dots == {i \in 1..Len(x[2]) : x[2][i] = 46}
             dot == CHOOSE i \in dots : \A j \in dots : i >= j
             want == (IF x[1] = <<>> THEN <<>> ELSE x[1] \o <<47>>) \o SubSeq(x[2], 1, dot - 1) \o x[3]
             fine == dots # {} /\ Len(want) > 0 /\ \A i \in 1..Len(want) : want[i] >= 32 /\ want[i] # 34 IN
         ok = fine /\ (ok => (HeaderName(y) /\ y = <<34>> \o [i \in 1..Len(want) |-> IF want[i] = 92 THEN 47 ELSE want[i]] \o <<34>>))
    [] a \in {"i32", "i64"} -> LET v == Signed(x[1])  fine == v # Fail /\ InRange(v, IntWidth(a), FALSE) IN
         ok = fine /\ (ok => Expr(y, IntWidth(a) - 1) = v)
    [] a \in {"u32", "u64"} -> LET v == IF Len(x[1]) > 0 /\ x[1][1] \in {43, 45} THEN Fail ELSE Signed(x[1])  fine == v # Fail /\ InRange(v, IntWidth(a), TRUE) IN
         ok = fine /\ (ok => Expr(y, IntWidth(a)) = v)
    [] a \in {"flt", "dbl"} ->
         LET isf == a = "flt"  s == Special(x[1], isf)  v == Decimal(x[1]) IN
         IF s # Fail THEN ok /\ y = s
         ELSE IF v = Fail \/ ~DecLt(v, Over(isf)) THEN ~ok
         ELSE IF ok THEN FloatExpr(y, isf) = v
         ELSE v[2] # <<>> /\ DecLt(v, Least(isf))
    [] a = "bool" -> ok = (x[1] \in {<<116,114,117,101>>, <<102,97,108,115,101>>}) /\ (ok => y = x[1])
=============================================================================
