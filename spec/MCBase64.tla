------------------------------ MODULE MCBase64 ------------------------------
(* All short byte strings and all short texts over a small alphabet.        *)
EXTENDS Base64, TLC, Json
CONSTANTS NB, NT, Bytes, Chars, Export
VARIABLES kind, x, y
Init == \/ kind = "e" /\ x \in UNION {[1..n -> Bytes] : n \in 0..NB} /\ y = Enc(x)
        \/ kind = "d" /\ x \in UNION {[1..n -> Chars] : n \in 0..NT} /\ y = Dec(x)
Next == UNCHANGED <<kind, x, y>>
Spec == Init /\ [][Next]_<<kind, x, y>>
Laws == /\ kind = "e" => Dec(y) = x /\ Legal(y) /\ Len(y) = 4 * ((Len(x) + 2) \div 3)
        /\ kind = "d" /\ y # Bad => Len(Enc(y)) = Len(x) /\ Dec(Enc(y)) = y
        (* one text per byte string: only the dropped bits can differ *)
        /\ kind = "d" /\ y # Bad /\ Pads(x) = 0 => Enc(y) = x
Vec == Export => PrintT("VEC " \o ToJson(<<kind, x, y>>))
=============================================================================
