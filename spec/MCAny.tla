------------------------------- MODULE MCAny -------------------------------
(* All URLs of up to MaxLen pieces against all types.                       *)
EXTENDS Any, Json
CONSTANTS MaxLen, Types
VARIABLES url, t, res
(* UrlPieces: sequence of byte strings                                      *)
Urls == UNION {{Cat(p) : p \in [1..n -> {UrlPieces[i] : i \in 1..Len(UrlPieces)}]} : n \in 0..MaxLen}
Init == url \in Urls /\ t \in Types /\ res = Unpack(<<url, <<>>, <<>>>>, t, FALSE)[1]
Next == UNCHANGED <<url, t, res>>
Spec == Init /\ [][Next]_<<url, t, res>>
Laws == /\ (res = 1) <=> \E n \in 0..Len(url) : SubSeq(url, n + 1, Len(url)) = <<Slash>> \o FullName[t]
        /\ \A u \in Types \ {t} : res = 1 => ~Names(url, u)
        /\ Names(Url(t), t) /\ Names(url \o <<Slash>> \o FullName[t], t)
Vec == PrintT("VEC " \o ToJson(<<url, t, res>>))
=============================================================================
