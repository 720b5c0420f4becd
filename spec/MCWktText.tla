----------------------------- MODULE MCWktText -----------------------------
(* The calendar walked day by day, with the round trips of both texts.      *)
EXTENDS WktText, TLC
CONSTANTS From, To, Nano, Secs
VARIABLES c, day
Init == c = Civil(From) /\ day = From
NextDay(x) == IF x[3] < MonthLen(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
Next == day < To /\ day' = day + 1 /\ c' = NextDay(c)
Spec == Init /\ [][Next]_<<c, day>>
Calendar == Civil(day) = c /\ DayNo(c[1], c[2], c[3]) = day /\ ValidDate(c[1], c[2], c[3])
RoundTrip == \A n \in Nano, s \in Secs : TsParse(TsText(<<day, s, n>>)) = <<day, s, n>>
Offsets == day \in (FirstDay + 2)..(LastDay - 2) =>
  LET t == TsText(<<day, 3600, 0>>)
      Z(o) == SubSeq(t, 1, 19) \o o
  IN /\ TsParse(Z(<<43, 48, 49, 58, 51, 48>>)) = <<day - 1, 84600, 0>>      \* +01:30
     /\ TsParse(Z(<<45, 50, 51, 58, 53, 57>>)) = <<day + 1, 3540, 0>>        \* -23:59
Dur == \A n \in Nano, g \in 0..1, d \in {Zero, <<7>>, <<1, 0>>, Limit} :
         LET x == <<IF d = Zero THEN 0 ELSE g, d, IF g = 1 THEN -n ELSE n>> IN DuLegal(x) /\ DuParse(DuText(x)) = x
=============================================================================
