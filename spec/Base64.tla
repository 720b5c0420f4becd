------------------------------- MODULE Base64 -------------------------------
(* Padded Base64 (RFC 4648, section 4) between byte sequences and texts;    *)
(* both are sequences of numbers 0..255.  Bad is the refusal.               *)
EXTENDS Integers, Sequences
Bad == <<-1>>
Ch(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 97 + 26 ELSE IF c \in 48..57 THEN c - 48 + 52
          ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Pad == 61
(* position p (1-based) of the text of b *)
Enc(b) ==
  LET n == Len(b)
      B(i) == IF i <= n THEN b[i] ELSE 0
  IN [p \in 1..(4 * ((n + 2) \div 3)) |->
        LET g == (p - 1) \div 4
            k == (p - 1) % 4
            x == B(3 * g + 1)
            y == B(3 * g + 2)
            z == B(3 * g + 3)
            have == n - 3 * g
        IN IF (k = 2 /\ have < 2) \/ (k = 3 /\ have < 3) THEN Pad
           ELSE Ch(CASE k = 0 -> x \div 4
                     [] k = 1 -> (x % 4) * 16 + y \div 16
                     [] k = 2 -> (y % 16) * 4 + z \div 64
                     [] k = 3 -> z % 64)]
(* a text is legal if it is made of groups of four characters of the        *)
(* alphabet of which only the last group may end in one or two pads; bits   *)
(* which do not belong to a byte are dropped                                *)
Pads(t) == IF t = <<>> THEN 0 ELSE IF t[Len(t)] # Pad THEN 0 ELSE IF t[Len(t) - 1] # Pad THEN 1 ELSE 2
Legal(t) == Len(t) % 4 = 0 /\ \A i \in 1..(Len(t) - Pads(t)) : Val(t[i]) >= 0
Dec(t) ==
  IF ~Legal(t) THEN Bad
  ELSE LET D(i) == IF t[i] = Pad THEN 0 ELSE Val(t[i])
       IN [p \in 1..(3 * (Len(t) \div 4) - Pads(t)) |->
             LET g == (p - 1) \div 3
                 k == (p - 1) % 3
             IN CASE k = 0 -> D(4 * g + 1) * 4 + D(4 * g + 2) \div 16
                  [] k = 1 -> (D(4 * g + 2) % 16) * 16 + D(4 * g + 3) \div 4
                  [] k = 2 -> (D(4 * g + 3) % 4) * 64 + D(4 * g + 4)]
=============================================================================
