------------------------------ MODULE WktText ------------------------------
(* The text forms of Timestamp and Duration in the protobuf JSON mapping.   *)
(* An instant is <<day since 1970-01-01, second of the day, nanos>>; the    *)
(* seconds of a duration are a sign and decimal digits (they exceed TLC's   *)
(* integers); texts are sequences of character codes.  Refused = <<-1>>.    *)
EXTENDS Integers, Sequences
Refused == <<-1>>
(* ---- the proleptic Gregorian calendar ---------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + MonthLen(y, m - 1)
DayNo(y, m, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + DaysBefore(y, m) + d - 1 - 719162
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
RECURSIVE YearOf(_, _)
YearOf(day, y) == IF DayNo(y + 1, 1, 1) <= day THEN YearOf(day, y + 1) ELSE IF DayNo(y, 1, 1) > day THEN YearOf(day, y - 1) ELSE y
RECURSIVE MonthOf(_, _, _)
MonthOf(doy, y, m) == IF doy < DaysBefore(y, m) + MonthLen(y, m) THEN m ELSE MonthOf(doy, y, m + 1)
Civil(day) == LET y == YearOf(day, 1 + ((day + 719162) \div 366))
                  doy == day - DayNo(y, 1, 1)
                  m == MonthOf(doy, y, 1)
              IN <<y, m, doy - DaysBefore(y, m) + 1>>
FirstDay == -719162
LastDay == 2932896
(* ---- digits ------------------------------------------------------------- *)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Digits(v, w) == [p \in 1..w |-> 48 + ((v \div Pow10(w - p)) % 10)]
IsDigit(c) == c \in 48..57
AllDigits(t, a, b) == \A p \in a..b : IsDigit(t[p])
RECURSIVE Num(_, _, _)
Num(t, a, b) == IF a > b THEN 0 ELSE Num(t, a, b - 1) * 10 + t[b] - 48
Nanos(n) ==     \* nothing, 3, 6 or 9 digits
  IF n = 0 THEN <<>> ELSE <<46>> \o Digits(n \div 1000000, 3) \o
     (IF n % 1000000 = 0 THEN <<>> ELSE Digits((n \div 1000) % 1000, 3) \o (IF n % 1000 = 0 THEN <<>> ELSE Digits(n % 1000, 3)))
(* ---- timestamps --------------------------------------------------------- *)
TsLegal(x) == x[1] \in FirstDay..LastDay /\ x[3] \in 0..999999999
TsText(x) ==
  IF ~TsLegal(x) THEN Refused
  ELSE LET c == Civil(x[1]) IN
       Digits(c[1], 4) \o <<45>> \o Digits(c[2], 2) \o <<45>> \o Digits(c[3], 2) \o <<84>>
       \o Digits(x[2] \div 3600, 2) \o <<58>> \o Digits((x[2] \div 60) % 60, 2) \o <<58>> \o Digits(x[2] % 60, 2) \o Nanos(x[3]) \o <<90>>
(* the length of the offset at the end: Z or +hh:mm or -hh:mm               *)
ZoneLen(t) == IF t[Len(t)] = 90 THEN 1 ELSE 6
Shape(t) ==
  /\ Len(t) >= 20
  /\ AllDigits(t, 1, 4) /\ t[5] = 45 /\ AllDigits(t, 6, 7) /\ t[8] = 45 /\ AllDigits(t, 9, 10) /\ t[11] = 84
  /\ AllDigits(t, 12, 13) /\ t[14] = 58 /\ AllDigits(t, 15, 16) /\ t[17] = 58 /\ AllDigits(t, 18, 19)
  /\ LET z == Len(t) - ZoneLen(t) + 1 IN
     /\ z >= 20
     /\ z # 20 => t[20] = 46 /\ z - 21 \in 1..9 /\ AllDigits(t, 21, z - 1)
     /\ t[Len(t)] # 90 => /\ t[z] \in {43, 45} /\ AllDigits(t, z + 1, z + 2) /\ t[z + 3] = 58 /\ AllDigits(t, z + 4, z + 5)
                          /\ Num(t, z + 1, z + 2) <= 23 /\ Num(t, z + 4, z + 5) <= 59
TsParse(t) ==
  IF ~Shape(t) THEN Refused
  ELSE LET y == Num(t, 1, 4)
           mo == Num(t, 6, 7)
           d == Num(t, 9, 10)
           h == Num(t, 12, 13)
           mi == Num(t, 15, 16)
           s == Num(t, 18, 19)
           z == Len(t) - ZoneLen(t) + 1
           n == IF z = 20 THEN 0 ELSE Num(t, 21, z - 1) * Pow10(9 - (z - 21))
           off == IF t[Len(t)] = 90 THEN 0 ELSE (IF t[z] = 45 THEN -1 ELSE 1) * (Num(t, z + 1, z + 2) * 3600 + Num(t, z + 4, z + 5) * 60)
       IN IF ~ValidDate(y, mo, d) \/ h > 23 \/ mi > 59 \/ s > 59 THEN Refused
          ELSE LET sec == h * 3600 + mi * 60 + s - off
                   day == DayNo(y, mo, d) + sec \div 86400
               IN IF day \in FirstDay..LastDay THEN <<day, sec % 86400, n>> ELSE Refused
(* ---- durations ---------------------------------------------------------- *)
Limit == <<3, 1, 5, 5, 7, 6, 0, 0, 0, 0, 0, 0>>
RECURSIVE LeqSame(_, _)
LeqSame(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LeqSame(Tail(a), Tail(b))
InLimit(d) == Len(d) < Len(Limit) \/ (Len(d) = Len(Limit) /\ LeqSame(d, Limit))
Zero == <<0>>
DuLegal(x) == /\ InLimit(x[2]) /\ x[3] \in -999999999..999999999
              /\ x[2] # Zero /\ x[3] # 0 => (x[1] = 1) = (x[3] < 0)
Abs(n) == IF n < 0 THEN -n ELSE n
DuText(x) == IF ~DuLegal(x) THEN Refused
             ELSE (IF x[1] = 1 \/ x[3] < 0 THEN <<45>> ELSE <<>>) \o [p \in 1..Len(x[2]) |-> 48 + x[2][p]] \o Nanos(Abs(x[3])) \o <<115>>
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
DuParse(t) ==
  IF t = <<>> THEN Refused
  ELSE LET neg == t[1] = 45
           a == IF neg THEN 2 ELSE 1
           z == Len(t) - 1                       \* last character before the s
           Dots == {p \in a..z : t[p] = 46}
           dot == IF Dots = {} THEN z + 1 ELSE CHOOSE p \in Dots : \A q \in Dots : p <= q
           ok == /\ t[Len(t)] = 115 /\ dot > a /\ AllDigits(t, a, dot - 1)
                 /\ dot # z + 1 => z - dot \in 1..9 /\ AllDigits(t, dot + 1, z)
       IN IF ~ok THEN Refused
          ELSE LET d == Strip([p \in 1..(dot - a) |-> t[a + p - 1] - 48])
                   n == IF dot = z + 1 THEN 0 ELSE Num(t, dot + 1, z) * Pow10(9 - (z - dot))
               IN IF ~InLimit(d) THEN Refused
                  ELSE <<IF neg /\ d # Zero THEN 1 ELSE 0, d, IF neg THEN -n ELSE n>>
=============================================================================
