----------------------------- MODULE Descriptor -----------------------------
(* Schemas loaded at run time: which sets of file descriptors are well      *)
(* formed, and what every field of a well-formed set means.                 *)
(*                                                                          *)
(* set   = sequence of files                                                *)
(* file  = [name, syntax, edition, package, deps, feats, msgs, enums, exts] *)
(* msg   = [name, feats, fields, oneofs (count), nested, enums, exts, map]  *)
(* field = [name, num, label, type, tname, oneof (-1: none), p3, packed,    *)
(*          feats, json, def (character codes), fx (the bits of a floating  *)
(*          point default, "" if the text is none), ext (extendee)]         *)
(* enum  = [name, feats, vals: sequence of <<name, number>>]                *)
(* feats = [p, e, r, u, m], each "" when not overridden                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
SeqSet(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)

(* ------------------------------------------------------------- features *)
LegacyFeats == [p |-> "EXPLICIT", e |-> "CLOSED", r |-> "EXPANDED", u |-> "NONE", m |-> "LENGTH_PREFIXED"]
Proto3Feats == [p |-> "IMPLICIT", e |-> "OPEN", r |-> "PACKED", u |-> "VERIFY", m |-> "LENGTH_PREFIXED"]
EditionFeats == [p |-> "EXPLICIT", e |-> "OPEN", r |-> "PACKED", u |-> "VERIFY", m |-> "LENGTH_PREFIXED"]
Editions == {1000, 1001}
SyntaxOK(f) == f.syntax = "editions" => f.edition \in Editions
Default(f) == CASE f.syntax = "editions" -> EditionFeats [] f.syntax = "proto3" -> Proto3Feats [] OTHER -> LegacyFeats
(* nearest wins, feature by feature *)
Over(outer, inner) == [x \in {"p", "e", "r", "u", "m"} |-> IF inner[x] = "" THEN outer[x] ELSE inner[x]]

(* ------------------------------------------------- flattened definitions *)
Join(scope, name) == IF scope = "" THEN name ELSE scope \o "." \o name
(* every message below, outermost first: [fn, msg, feats] *)
RECURSIVE Below(_, _, _)
Below(scope, outer, m) == LET fn == Join(scope, m.name)
                              fs == Over(outer, m.feats)
                          IN <<[fn |-> fn, msg |-> m, feats |-> fs]>> \o Cat([k \in 1..Len(m.nested) |-> Below(fn, fs, m.nested[k])])
FileFeats(f) == Over(Default(f), f.feats)
FileMsgs(f) == Cat([k \in 1..Len(f.msgs) |-> Below(f.package, FileFeats(f), f.msgs[k])])
Msgs(set) == Cat([k \in 1..Len(set) |-> FileMsgs(set[k])])
EnumsIn(scope, outer, es) == [k \in 1..Len(es) |-> [fn |-> Join(scope, es[k].name), enum |-> es[k], feats |-> Over(outer, es[k].feats)]]
Enums(set) == Cat([k \in 1..Len(set) |->
                EnumsIn(set[k].package, FileFeats(set[k]), set[k].enums) \o
                LET ms == FileMsgs(set[k]) IN Cat([j \in 1..Len(ms) |-> EnumsIn(ms[j].fn, ms[j].feats, ms[j].msg.enums)])])
Exts(set) == Cat([k \in 1..Len(set) |->
                set[k].exts \o LET ms == FileMsgs(set[k]) IN Cat([j \in 1..Len(ms) |-> ms[j].msg.exts])])

(* ------------------------------------------------------------ dependencies *)
RECURSIVE Reach(_, _)
Reach(edges, from) == LET next == from \cup {e[2] : e \in {x \in edges : x[1] \in from}}
                      IN IF next = from THEN from ELSE Reach(edges, next)
Edges(set) == UNION {{<<set[k].name, d>> : d \in SeqSet(set[k].deps)} : k \in 1..Len(set)}
Acyclic(edges) == \A e \in edges : e[1] \notin Reach(edges, {e[2]})
DepsOK(set) == LET names == {set[k].name : k \in 1..Len(set)}
                   edges == Edges(set)
               IN (\A e \in edges : e[2] \in names) /\ Acyclic(edges)

(* ---------------------------------------------------------- field numbers *)
NumberOK(n) == n >= 1 /\ n <= 536870911 /\ ~(n >= 19000 /\ n <= 19999)
TypeOK(f) == f.type \in 1..18 /\ f.label \in 1..3

(* -------------------------------------------------------------- JSON names *)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
At(s, k) == SubSeq(s, k, k)
Up(c) == IF \E k \in 1..26 : At(Lower, k) = c THEN At(Upper, CHOOSE k \in 1..26 : At(Lower, k) = c) ELSE c
RECURSIVE Camel(_, _)
Camel(s, up) == IF Len(s) = 0 THEN "" ELSE
                IF At(s, 1) = "_" THEN Camel(SubSeq(s, 2, Len(s)), TRUE)
                ELSE (IF up THEN Up(At(s, 1)) ELSE At(s, 1)) \o Camel(SubSeq(s, 2, Len(s)), FALSE)
Custom(f) == f.json # "" /\ f.json # Camel(f.name, FALSE)
JsonClash(a, b) == Custom(a) /\ (a.json = b.name \/ (b.json # "" /\ a.json = b.json))

(* ---------------------------------------------------------------- defaults *)
Digit(c) == c >= 48 /\ c <= 57
Neg(t) == t # <<>> /\ t[1] = 45
Mag(t) == IF Neg(t) THEN Tail(t) ELSE t
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t
IsInt(t) == Mag(t) # <<>> /\ \A k \in 1..Len(Mag(t)) : Digit(Mag(t)[k])
Leq(a, b) == \/ Len(a) < Len(b)
             \/ /\ Len(a) = Len(b)
                /\ \/ a = b
                   \/ \E k \in 1..Len(a) : (\A j \in 1..(k-1) : a[j] = b[j]) /\ a[k] < b[k]
Text(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]
Int32Max == Text(<<2,1,4,7,4,8,3,6,4,7>>)
Int32Min == Text(<<2,1,4,7,4,8,3,6,4,8>>)
UInt32Max == Text(<<4,2,9,4,9,6,7,2,9,5>>)
Int64Max == Text(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
Int64Min == Text(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)
UInt64Max == Text(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
SignedOK(t, max, min) == IsInt(t) /\ Leq(Strip(Mag(t)), IF Neg(t) THEN min ELSE max)
UnsignedOK(t, max) == IsInt(t) /\ ~Neg(t) /\ Leq(Strip(t), max)
IntNorm(t) == LET m == Strip(Mag(t)) IN IF Neg(t) /\ m # <<48>> THEN <<45>> \o m ELSE m
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Floating == {1, 2}
I32 == {5, 15, 17}
I64 == {3, 16, 18}
U32 == {7, 13}
U64 == {4, 6}
StringT == 9
BytesT == 12
EnumT == 14
BoolT == 8
GroupT == 10
MessageT == 11
(* enums[d]: the enum of the field *)
DefaultOK(f, values) ==
  \/ f.def = <<>>
  \/ f.type \in Floating /\ f.fx # ""
  \/ f.type \in I32 /\ SignedOK(f.def, Int32Max, Int32Min)
  \/ f.type \in I64 /\ SignedOK(f.def, Int64Max, Int64Min)
  \/ f.type \in U32 /\ UnsignedOK(f.def, UInt32Max)
  \/ f.type \in U64 /\ UnsignedOK(f.def, UInt64Max)
  \/ f.type = BoolT /\ f.def \in {True, False}
  \/ f.type = EnumT /\ \E k \in 1..Len(values) : values[k][1] = f.dname
  \/ f.type \in {StringT, BytesT, GroupT, MessageT}

(* ------------------------------------------------------------- well formed *)
Dotted(ns) == {"." \o n : n \in ns}
RefOK(f, mn, en) == /\ f.type \in {GroupT, MessageT} => f.tname \in Dotted(mn)
                    /\ f.type = EnumT => f.tname \in Dotted(en)
                    /\ f.ext # "" => f.ext \in Dotted(mn)
EnumOf(f, es) == LET k == CHOOSE k \in 1..Len(es) : "." \o es[k].fn = f.tname IN es[k]
(* the members of every oneof are consecutive fields *)
Contiguous(fs) == \A a \in 1..Len(fs) : \A b \in 1..Len(fs) :
                    (a < b /\ fs[a].oneof >= 0 /\ fs[a].oneof = fs[b].oneof) => \A c \in a..b : fs[c].oneof = fs[a].oneof
FieldsOK(m) == LET fs == m.fields IN
  /\ \A k \in 1..Len(fs) : TypeOK(fs[k]) /\ NumberOK(fs[k].num)
  /\ NoDup([k \in 1..Len(fs) |-> fs[k].num])
  /\ NoDup([k \in 1..Len(fs) |-> fs[k].name])
  /\ \A a \in 1..Len(fs) : \A b \in 1..Len(fs) : a # b => ~JsonClash(fs[a], fs[b])
  /\ \A k \in 1..Len(fs) : fs[k].oneof # -1 => fs[k].oneof \in 0..(m.oneofs - 1) /\ fs[k].label # 3
  /\ \A o \in 0..(m.oneofs - 1) : \E k \in 1..Len(fs) : fs[k].oneof = o
  /\ Contiguous(fs)
WellFormed(set) ==
  /\ \A k \in 1..Len(set) : set[k].name # "" /\ SyntaxOK(set[k])
  /\ NoDup([k \in 1..Len(set) |-> set[k].name])
  /\ DepsOK(set)
  /\ LET ms == Msgs(set)
         es == Enums(set)
         xs == Exts(set)
         mn == {ms[k].fn : k \in 1..Len(ms)}
         en == {es[k].fn : k \in 1..Len(es)}
         all == Cat([k \in 1..Len(ms) |-> ms[k].msg.fields]) \o xs
     IN /\ \A k \in 1..Len(ms) : ms[k].msg.name # ""
        /\ \A k \in 1..Len(es) : es[k].enum.name # ""
        /\ Cardinality(mn \cup en) = Len(ms) + Len(es)
        /\ \A k \in 1..Len(ms) : FieldsOK(ms[k].msg)
        /\ \A k \in 1..Len(xs) : TypeOK(xs[k]) /\ NumberOK(xs[k].num)
        /\ \A k \in 1..Len(all) :
             /\ RefOK(all[k], mn, en)
             /\ all[k].type = EnumT => EnumOf(all[k], es).enum.vals # <<>>
             /\ DefaultOK(all[k], IF all[k].type = EnumT THEN EnumOf(all[k], es).enum.vals ELSE <<>>)

(* ------------------------------------------------------- what fields mean *)
Packable(f) == f.label = 3 /\ f.type \notin {StringT, BytesT, GroupT, MessageT}
Packed(f, fs) == Packable(f) /\ (IF f.packed = "" THEN fs.r = "PACKED" ELSE f.packed = "T")
Required(f, fs) == f.label = 2 \/ (f.label = 1 /\ fs.p = "LEGACY_REQUIRED")
(* entries of maps always know whether they have a key and a value *)
Presence(f, fs, inEntry) ==
  CASE f.label = 3 -> "repeated"
    [] f.oneof >= 0 -> "oneof"
    [] Required(f, fs) -> "required"
    [] f.type \in {GroupT, MessageT} \/ f.p3 \/ fs.p = "EXPLICIT" \/ inEntry -> "explicit"
    [] OTHER -> "implicit"
(* maps and what is in them are never delimited by group tags *)
Delimited(f, fs, inEntry, ofEntry) == f.type = GroupT \/ (f.type = MessageT /\ fs.m = "DELIMITED" /\ ~inEntry /\ ~ofEntry)
Utf8(f, fs) == f.type = StringT /\ fs.u = "VERIFY"

(* wire bytes of small things *)
RECURSIVE Var(_)
Var(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Var(n \div 128)
Tag(num, wt) == IF num < 16 THEN <<(num % 16) * 8 + wt>> ELSE <<128 + (num % 16) * 8 + wt>> \o Var(num \div 16)
EnumVar(n) == IF n >= 0 THEN Var(n)
              ELSE LET l == (n + 2147483647) + 1
                   IN <<128 + (l % 128), 128 + ((l \div 128) % 128), 128 + ((l \div 16384) % 128), 128 + ((l \div 2097152) % 128),
                        128 + (l \div 268435456) + 120, 255, 255, 255, 255, 1>>
Zeros(n) == [k \in 1..n |-> 0]
WireType(f, delim) == CASE f.type \in {1, 6, 16} -> 1 [] f.type \in {2, 7, 15} -> 5
                        [] f.type \in {GroupT, MessageT} -> (IF delim THEN 3 ELSE 2)
                        [] f.type \in {StringT, BytesT} -> 2 [] OTHER -> 0
(* the zero value of the type (of an enum: its first value) *)
Zero(f, first) == CASE WireType(f, FALSE) = 1 -> Zeros(8) [] WireType(f, FALSE) = 5 -> Zeros(4)
                    [] f.type = EnumT -> EnumVar(first) [] OTHER -> <<0>>
One(f, first, delim) == IF f.type \in {GroupT, MessageT} /\ delim THEN Tag(f.num, 3) \o Tag(f.num, 4)
                        ELSE Tag(f.num, WireType(f, FALSE)) \o Zero(f, first)
(* the encoding of a message in which only this field was set, to zero (twice if repeated) *)
ZeroEncoding(f, pres, packed, delim, first) ==
  CASE packed -> LET z == Zero(f, first) IN Tag(f.num, 2) \o Var(2 * Len(z)) \o z \o z
    [] pres = "repeated" -> One(f, first, delim) \o One(f, first, delim)
    [] pres = "implicit" /\ ~(f.type = EnumT /\ first # 0) -> <<>>
    [] OTHER -> One(f, first, delim)
Strange == Var(123456)   \* a number no enum has
(* what is left of an input with an unknown number (enums) or a byte that is no UTF-8 (strings); <<-1>>: rejected *)
OddEncoding(f, packed, closed, utf8) ==
  CASE f.type = EnumT -> (IF closed THEN <<>> ELSE IF packed THEN Tag(f.num, 2) \o Var(Len(Strange)) \o Strange ELSE Tag(f.num, 0) \o Strange)
    [] f.type = StringT -> (IF utf8 THEN <<-1>> ELSE Tag(f.num, 2) \o <<1, 255>>)
    [] OTHER -> <<>>
(* the C-escaped default of a bytes field *)
Octal(c) == c >= 48 /\ c <= 55
Esc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c
RECURSIVE Unescape(_)
Unescape(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF t[1] # 92 \/ Len(t) = 1 THEN <<t[1]>> \o Unescape(Tail(t))
  ELSE IF Octal(t[2])
       THEN LET n == IF Len(t) >= 4 /\ Octal(t[3]) /\ Octal(t[4]) THEN 3 ELSE IF Len(t) >= 3 /\ Octal(t[3]) THEN 2 ELSE 1
                v == IF n = 3 THEN (t[2]-48)*64 + (t[3]-48)*8 + (t[4]-48) ELSE IF n = 2 THEN (t[2]-48)*8 + (t[3]-48) ELSE t[2]-48
            IN <<v % 256>> \o Unescape(SubSeq(t, n + 2, Len(t)))
       ELSE <<Esc(t[2])>> \o Unescape(SubSeq(t, 3, Len(t)))
RECURSIVE Dec(_)
Dec(n) == IF n < -2147483647 THEN <<45>> \o Int32Min ELSE IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
(* what an absent field reads as *)
DefaultValue(f, pres, values) ==
  IF pres = "repeated" \/ f.type \in {GroupT, MessageT} THEN <<>>
  ELSE CASE f.type = BytesT -> Unescape(f.def)
         [] f.type = StringT -> f.def
         [] f.type = BoolT -> IF f.def = True THEN <<49>> ELSE <<48>>
         [] f.type = EnumT -> IF f.def # <<>> THEN Dec(values[CHOOSE k \in 1..Len(values) : values[k][1] = f.dname][2])
                              ELSE IF pres = "implicit" THEN <<48>> ELSE Dec(values[1][2])
         [] f.type \in Floating -> <<>>
         [] OTHER -> IF f.def = <<>> THEN <<48>> ELSE IntNorm(f.def)
FloatDefault(f, pres) == IF f.type \in Floating /\ pres # "repeated" THEN (IF f.def = <<>> THEN "0" ELSE f.fx) ELSE ""

Meaning(f, outer, inEntry, ms, es) ==
  LET fs == Over(outer, f.feats)
      sub == f.type \in {GroupT, MessageT}
      ofEntry == sub /\ ms[CHOOSE k \in 1..Len(ms) : "." \o ms[k].fn = f.tname].msg.map
      e == IF f.type = EnumT THEN EnumOf(f, es) ELSE [enum |-> [vals |-> <<<<"", 0>>>>], feats |-> outer]
      closed == f.type = EnumT /\ e.feats.e = "CLOSED"
      vals == e.enum.vals
      pres == Presence(f, fs, inEntry)
      packed == Packed(f, fs)
      delim == Delimited(f, fs, inEntry, ofEntry)
      utf8 == Utf8(f, fs)
  IN [n |-> f.num, p |-> pres, k |-> packed, d |-> delim, u |-> utf8, c |-> closed, m |-> ofEntry,
      z |-> ZeroEncoding(f, pres, packed, delim, vals[1][2]),
      x |-> IF inEntry THEN <<>> ELSE OddEncoding(f, packed, closed, utf8),   \* entries are only read within maps
      v |-> DefaultValue(f, pres, vals), fv |-> FloatDefault(f, pres)]
Load(set) == IF ~WellFormed(set) THEN [ok |-> FALSE, msgs |-> <<>>]
             ELSE LET ms == Msgs(set)
                      es == Enums(set)
                  IN [ok |-> TRUE, msgs |-> [k \in 1..Len(ms) |->
                        [fn |-> ms[k].fn,
                         fields |-> [j \in 1..Len(ms[k].msg.fields) |-> Meaning(ms[k].msg.fields[j], ms[k].feats, ms[k].msg.map, ms, es)]]]]
=============================================================================
