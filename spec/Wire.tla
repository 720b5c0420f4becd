------------------------------- MODULE Wire -------------------------------
(* The binary protobuf format as hpp-proto implements it: abstract values, *)
(* the encoder as an operator and the decoder as a small-step machine.     *)
(*                                                                         *)
(* Values.  A scalar is its little-endian byte sequence (bool 1 byte,      *)
(* 32-bit kinds 4, 64-bit kinds 8), string/bytes a byte sequence.          *)
(* A message is a tuple with one slot per field or oneof in schema order,  *)
(* and its retained unknown bytes as last component:                       *)
(*   implicit/required  v        optional  <<>> or <<v>>                   *)
(*   repeated  <<v,..>>          map  <<<<k,v>>,..>> sorted by key bytes   *)
(*   oneof  <<>> or <<alternative, v>>                                     *)
(* TLC integers have 32 bits; no operator below builds a larger number.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, VtSchema, Utf8, TLC

VARINT == {"int32","int64","uint32","uint64","sint32","sint64","bool","enum"}
FIX32  == {"fixed32","sfixed32","float"}
FIX64  == {"fixed64","sfixed64","double"}
LEN    == {"string","bytes","msg"}
WT(k) == IF k \in VARINT THEN 0 ELSE IF k \in FIX64 THEN 1 ELSE IF k \in FIX32 THEN 5 ELSE IF k = "group" THEN 3 ELSE 2
Size(k) == IF k = "bool" THEN 1 ELSE IF k \in FIX64 \union {"int64","uint64","sint64"} THEN 8 ELSE 4
Packable(k) == k \notin {"string","bytes","msg","group"}
Pow2 == <<1,2,4,8,16,32,64,128,256>>      \* Pow2[n+1] = 2^n
Zeros(n) == [i \in 1..n |-> 0]

---------------------------------------------------------------------------
(* Varints as digit sequences                                              *)
RECURSIVE VL(_,_,_,_)
VL(b, p, lim, n) == IF n > 10 \/ p + n - 1 > lim THEN 0
                    ELSE IF b[p + n - 1] < 128 THEN n ELSE VL(b, p, lim, n + 1)
(* length (1..10) of the varint at p that must end by lim; 0: none         *)
VarLen(b, p, lim) == VL(b, p, lim, 1)
Dg(b, p, n, j) == IF j <= n THEN b[p + j - 1] % 128 ELSE 0
(* 64-bit little-endian value of the n-byte varint at p; the bits of a     *)
(* tenth byte that lie beyond 64 are dropped                               *)
V8(b, p, n) == [k \in 1..8 |-> LET q == 8 * (k - 1) j == (q \div 7) + 1 o == q % 7
                 IN ((Dg(b,p,n,j) \div Pow2[o+1]) + Dg(b,p,n,j+1) * Pow2[7-o+1]) % 256]
Lo4(v) == SubSeq(v, 1, 4)
Shr1(v) == [k \in 1..Len(v) |-> (v[k] \div 2) + (IF k < Len(v) THEN (v[k+1] % 2) * 128 ELSE 0)]
Shl1(v) == [k \in 1..Len(v) |-> ((v[k] * 2) % 256) + (IF k > 1 THEN v[k-1] \div 128 ELSE 0)]
Not(v) == [k \in 1..Len(v) |-> 255 - v[k]]
UnZig(v) == IF v[1] % 2 = 1 THEN Not(Shr1(v)) ELSE Shr1(v)
Zig(v) == IF v[Len(v)] >= 128 THEN Not(Shl1(v)) ELSE Shl1(v)
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0
(* scalar of kind k carried by a 64-bit varint value                       *)
FromVar(k, v) == CASE k = "bool" -> <<IF IsZero(v) THEN 0 ELSE 1>>
                   [] k \in {"int32","uint32","enum"} -> Lo4(v)
                   [] k = "sint32" -> UnZig(Lo4(v))
                   [] k = "sint64" -> UnZig(v)
                   [] OTHER -> v
Ext8(v, fill) == v \o [i \in 1..(8 - Len(v)) |-> fill]
ToVar(k, v) == CASE k = "bool" -> Ext8(v, 0)
                 [] k \in {"int32","enum"} -> Ext8(v, IF v[4] >= 128 THEN 255 ELSE 0)
                 [] k = "uint32" -> Ext8(v, 0)
                 [] k = "sint32" -> Ext8(Zig(v), 0)
                 [] k = "sint64" -> Zig(v)
                 [] OTHER -> v
By(v, k) == IF k <= 8 THEN v[k] ELSE 0
Digit(v, j) == LET q == 7 * j k == (q \div 8) + 1 o == q % 8
               IN ((By(v,k) \div Pow2[o+1]) + By(v,k+1) * Pow2[8-o+1]) % 128
(* canonical varint bytes of a 64-bit value                                *)
EncVar(v) == LET n == CHOOSE m \in 0..9 : /\ (m = 0 \/ Digit(v, m) # 0)
                                          /\ \A j \in (m+1)..9 : Digit(v, j) = 0
             IN [j \in 1..(n+1) |-> Digit(v, j-1) + (IF j <= n THEN 128 ELSE 0)]
RECURSIVE EncNat(_)
EncNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o EncNat(n \div 128)
(* tag: n*8 would overflow, so the first byte is built separately          *)
EncTag(num, wt) == IF num < 16 THEN <<num * 8 + wt>> ELSE <<(num % 16) * 8 + wt + 128>> \o EncNat(num \div 16)
(* a length: -1 none, -2 too large for the input anyway                    *)
NatOf(b, p, n) == LET v == V8(b, p, n)
                  IN IF v[4] >= 128 \/ v[5] # 0 \/ v[6] # 0 \/ v[7] # 0 \/ v[8] # 0 THEN -2
                     ELSE v[1] + 256 * v[2] + 65536 * v[3] + 16777216 * v[4]
---------------------------------------------------------------------------
(* Schema access                                                           *)
FieldsOf(s) == s.f
NumOf(s, a) == IF s.card = "map" THEN s.num ELSE s.f[a].num
Alts(s) == IF s.card = "map" THEN 1..1 ELSE 1..Len(s.f)
NumTab == [t \in 1..Len(Schema) |->
             LET ps == { <<sl, a>> \in UNION { {sl} \X Alts(Schema[t][sl]) : sl \in 1..Len(Schema[t]) } : TRUE }
             IN [n \in { NumOf(Schema[t][q[1]], q[2]) : q \in ps } |->
                    CHOOSE q \in ps : NumOf(Schema[t][q[1]], q[2]) = n]]
Known(t, n) == n \in DOMAIN NumTab[t]
ZeroOf(k) == IF k \in {"string","bytes"} THEN <<>> ELSE Zeros(Size(k))
RECURSIVE Default(_)
SlotDefault(s) == IF s.card \in {"implicit","required"}
                  THEN IF s.f[1].kind \in {"msg","group"} THEN Default(s.f[1].sub)
                       ELSE IF s.card = "required" THEN s.f[1].dflt ELSE ZeroOf(s.f[1].kind)
                  ELSE <<>>
Default(t) == [i \in 1..(Len(Schema[t]) + 1) |-> IF i <= Len(Schema[t]) THEN SlotDefault(Schema[t][i]) ELSE <<>>]
DefaultTab == [t \in 1..Len(Schema) |-> Default(t)]
---------------------------------------------------------------------------
(* Maps                                                                    *)
RECURSIVE LexLess(_,_)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
MapPut(m, k, v) ==
  LET below == { i \in 1..Len(m) : LexLess(m[i][1], k) }  n == Cardinality(below)
  IN IF n < Len(m) /\ m[n+1][1] = k
     THEN [m EXCEPT ![n+1] = <<k, v>>]
     ELSE SubSeq(m, 1, n) \o <<<<k, v>>>> \o SubSeq(m, n+1, Len(m))
---------------------------------------------------------------------------
(* Encoder                                                                 *)
RECURSIVE EncMsg(_,_)
EncBody(f, v) == IF f.kind \in VARINT THEN EncVar(ToVar(f.kind, v))
                 ELSE IF f.kind \in {"string","bytes"} THEN EncNat(Len(v)) \o v
                 ELSE IF f.kind = "msg" THEN LET e == EncMsg(f.sub, v) IN EncNat(Len(e)) \o e
                 ELSE IF f.kind = "group" THEN EncMsg(f.sub, v) \o EncTag(f.num, 4)
                 ELSE v
EncOne(f, v) == EncTag(f.num, WT(f.kind)) \o EncBody(f, v)
Cat(ss) == FlattenSeq(ss)
EncSlot(s, v) ==
  CASE s.card = "implicit" -> IF (IF s.f[1].kind \in {"string","bytes"} THEN v = <<>> ELSE IsZero(v)) THEN <<>> ELSE EncOne(s.f[1], v)
    [] s.card = "required" -> EncOne(s.f[1], v)
    [] s.card = "optional" -> IF v = <<>> THEN <<>> ELSE EncOne(s.f[1], v[1])
    [] s.card = "repeated" -> IF v = <<>> THEN <<>>
                              ELSE IF s.f[1].packed
                              THEN LET body == Cat([i \in 1..Len(v) |-> EncBody(s.f[1], v[i])])
                                   IN EncTag(s.f[1].num, 2) \o EncNat(Len(body)) \o body
                              ELSE Cat([i \in 1..Len(v) |-> EncOne(s.f[1], v[i])])
    [] s.card = "map" -> Cat([i \in 1..Len(v) |->
                            LET e == EncOne(s.f[1], v[i][1]) \o EncOne(s.f[2], v[i][2])
                            IN EncTag(s.num, 2) \o EncNat(Len(e)) \o e])
    [] s.card = "oneof" -> IF v = <<>> THEN <<>> ELSE EncOne(s.f[v[1]], v[2])
EncMsg(t, m) == Cat([i \in 1..Len(m) |-> IF i = Len(m) THEN m[i] ELSE EncSlot(Schema[t][i], m[i])])
---------------------------------------------------------------------------
(* Decoder machine.  State: position, stack of open messages/groups and a  *)
(* status.  One step consumes one token (a field, an end of region).       *)
(*   frame: ty    message type, 0 = unknown group                          *)
(*          val   value built so far                                       *)
(*          end   index of its last byte (groups: of the enclosing region) *)
(*          grp   field number of the group, 0 = length delimited          *)
(*          slot, alt   where the value goes in the parent                 *)
(*          start  first byte of the field's tag (for retention)           *)
(*          ent   it is a map entry                                        *)
(* status: "run", "ok", "bad" (malformed), "deep" (nesting limit)          *)
Frame(ty, val, end, grp, slot, alt, start, ent) ==
  [ty |-> ty, val |-> val, end |-> end, grp |-> grp, slot |-> slot, alt |-> alt, start |-> start, ent |-> ent]
Start0(t, b) == [pos |-> 1, status |-> "run",
                 stk |-> << Frame(t, DefaultTab[t], Len(b), 0, 0, 0, 1, FALSE) >>]
Top(s) == s.stk[Len(s.stk)]
SetTop(s, fr, pos) == [s EXCEPT !.stk[Len(s.stk)] = fr, !.pos = pos]
Bad(s) == [s EXCEPT !.status = "bad"]
Deep(s) == [s EXCEPT !.status = "deep"]
(* map entries are not counted as a nesting level of their own by the value they carry; see NestLimit *)
Depth(s) == Len(s.stk) - 1
EntryIds == { e \in 1..Len(Schema) : e > Len(TypeName) }
(* put a completed value v of field (slot,alt) into message value m of type t *)
Put(t, m, slot, alt, v) ==
  LET s == Schema[t][slot] IN
  CASE s.card = "optional" -> [m EXCEPT ![slot] = <<v>>]
    [] s.card \in {"implicit","required"} -> [m EXCEPT ![slot] = v]
    [] s.card = "repeated" -> [m EXCEPT ![slot] = Append(@, v)]
    [] s.card = "oneof" -> [m EXCEPT ![slot] = <<alt, v>>]
    [] s.card = "map" -> [m EXCEPT ![slot] = MapPut(@, v[1], IF s.f[2].kind = "msg"
                             THEN (IF v[2] = <<>> THEN DefaultTab[s.f[2].sub] ELSE v[2][1]) ELSE v[2])]
(* value a nested message starts from: merged into what is there           *)
Base(t, m, slot, alt) ==
  LET s == Schema[t][slot] f == s.f[alt] IN
  CASE s.card = "optional" -> IF m[slot] = <<>> THEN DefaultTab[f.sub] ELSE m[slot][1]
    [] s.card \in {"implicit","required"} -> m[slot]
    [] s.card = "oneof" -> IF m[slot] # <<>> /\ m[slot][1] = alt THEN m[slot][2] ELSE DefaultTab[f.sub]
    [] OTHER -> DefaultTab[f.sub]
AddUnknown(fr, raw, keep) == IF keep /\ fr.ty # 0 /\ ~fr.ent
                             THEN [fr EXCEPT !.val[Len(fr.val)] = @ \o raw] ELSE fr
(* closed enum numbers that are not declared become unknown fields         *)
Declared(f, v) == ~f.closed \/ v \in f.vals
PutScalar(fr, slot, alt, f, v, v8, keep) ==
  IF Declared(f, v) \/ fr.ent THEN [fr EXCEPT !.val = Put(fr.ty, fr.val, slot, alt, v)]
  ELSE AddUnknown(fr, EncTag(NumOf(Schema[fr.ty][slot], alt), 0) \o EncVar(v8), keep)
(* packed elements of f in b[p..e]: sequence of values, or <<<<>>>> if malformed *)
RECURSIVE PackedVar(_,_,_,_,_)
PackedVar(f, b, p, e, acc) == IF p > e THEN acc
  ELSE LET n == VarLen(b, p, e) IN IF n = 0 THEN <<<<>>>>
       ELSE PackedVar(f, b, p + n, e, Append(acc, V8(b, p, n)))
PutPacked(fr, slot, f, vs, keep) ==
  LET good == SelectSeq(vs, LAMBDA x : Declared(f, x[1]))
      ill  == SelectSeq(vs, LAMBDA x : ~Declared(f, x[1]))
      fr1  == [fr EXCEPT !.val[slot] = @ \o [i \in 1..Len(good) |-> good[i][1]]]
  IN IF ill = <<>> THEN fr1
     ELSE AddUnknown(fr1, Cat([i \in 1..Len(ill) |-> EncTag(f.num, 0) \o EncVar(ill[i][2])]), keep)
SExt(v4) == Ext8(v4, IF v4[4] >= 128 THEN 255 ELSE 0)
(* The steps.  b input, keep: unknown fields retained, maxd: nesting limit *)
EndOfRegion(b, keep, s) ==
  LET fr == Top(s) IN
  IF fr.grp # 0 THEN Bad(s)                                   \* group not closed
  ELSE IF Len(s.stk) = 1 THEN [s EXCEPT !.status = "ok"]
  ELSE LET up == s.stk[Len(s.stk) - 1]
           vf == Schema[fr.ty][Len(Schema[fr.ty])].f[1]
       IN [s EXCEPT !.stk = Append(SubSeq(s.stk, 1, Len(s.stk) - 2),
              \* a map entry with an undeclared closed enum value is an unknown field as a whole
              IF fr.ent /\ vf.kind = "enum" /\ ~Declared(vf, fr.val[2])
              THEN AddUnknown(up, SubSeq(b, fr.start, s.pos - 1), keep)
              ELSE [up EXCEPT !.val = Put(up.ty, up.val, fr.slot, fr.alt, fr.val)])]
EndGroup(b, keep, s, p2, num) ==
  LET fr == Top(s) IN
  IF fr.grp # num THEN Bad(s)
  ELSE LET up == s.stk[Len(s.stk) - 1] below == SubSeq(s.stk, 1, Len(s.stk) - 2)
       IN IF fr.ty = 0
          THEN [s EXCEPT !.pos = p2, !.stk = Append(below, AddUnknown(up, SubSeq(b, fr.start, p2 - 1), keep))]
          ELSE [s EXCEPT !.pos = p2,
                         !.stk = Append(below, [up EXCEPT !.val = Put(up.ty, up.val, fr.slot, fr.alt, fr.val)])]
Push(s, fr, pos, maxd) == IF Depth(s) + 1 > maxd THEN Deep(s) ELSE [s EXCEPT !.stk = Append(@, fr), !.pos = pos]
SkipUnknown(b, keep, maxd, s, p, p2, num, wt) ==
  LET fr == Top(s) IN
  CASE wt = 0 -> LET n == VarLen(b, p2, fr.end) IN
                 IF n = 0 THEN Bad(s) ELSE SetTop(s, AddUnknown(fr, SubSeq(b, p, p2 + n - 1), keep), p2 + n)
    [] wt = 1 -> IF p2 + 7 > fr.end THEN Bad(s) ELSE SetTop(s, AddUnknown(fr, SubSeq(b, p, p2 + 7), keep), p2 + 8)
    [] wt = 5 -> IF p2 + 3 > fr.end THEN Bad(s) ELSE SetTop(s, AddUnknown(fr, SubSeq(b, p, p2 + 3), keep), p2 + 4)
    [] wt = 2 -> LET n == VarLen(b, p2, fr.end) IN IF n = 0 THEN Bad(s)
                 ELSE LET l == NatOf(b, p2, n) e == p2 + n + l - 1
                      IN IF l < 0 \/ l > fr.end - (p2 + n - 1) THEN Bad(s)
                         ELSE SetTop(s, AddUnknown(fr, SubSeq(b, p, e), keep), e + 1)
    [] wt = 3 -> Push(s, Frame(0, <<>>, fr.end, num, 0, 0, p, FALSE), p2, maxd)
    [] OTHER -> Bad(s)
(* text that a field requiring validation must not carry                   *)
Illegal(f, v) == CheckUtf8 /\ f.utf8 /\ ~WellFormed(v)
ReadKnown(b, keep, maxd, s, p, p2, num, wt) ==
  LET fr == Top(s) q == NumTab[fr.ty][num] slot == q[1] alt == q[2]
      sl == Schema[fr.ty][slot] f == sl.f[alt]
      wantk == IF sl.card = "map" THEN "msg" ELSE f.kind
  IN
  IF wt = 2 /\ sl.card = "repeated" /\ Packable(wantk)
  THEN \* packed run
    LET n == VarLen(b, p2, fr.end) IN IF n = 0 THEN Bad(s)
    ELSE LET l == NatOf(b, p2, n) st == p2 + n e == st + l - 1
         IN IF l < 0 \/ l > fr.end - (st - 1) THEN Bad(s)
            ELSE IF f.kind \in VARINT
            THEN LET raw == PackedVar(f, b, st, e, <<>>)
                 IN IF raw = <<<<>>>> THEN Bad(s)
                    ELSE SetTop(s, PutPacked(fr, slot, f, [i \in 1..Len(raw) |->
                                   LET v == FromVar(f.kind, raw[i])
                                   IN <<v, IF f.kind = "enum" THEN SExt(v) ELSE raw[i]>>], keep), e + 1)
            ELSE LET z == Size(f.kind) IN IF l % z # 0 THEN Bad(s)
                 ELSE SetTop(s, [fr EXCEPT !.val[slot] = @ \o [i \in 1..(l \div z) |->
                                   SubSeq(b, st + (i - 1) * z, st + i * z - 1)]], e + 1)
  ELSE IF wt # WT(wantk) THEN Bad(s)
  ELSE CASE wt = 0 -> LET n == VarLen(b, p2, fr.end) IN IF n = 0 THEN Bad(s)
                      ELSE LET v8 == V8(b, p2, n) v == FromVar(f.kind, v8)
                           IN SetTop(s, PutScalar(fr, slot, alt, f, v, IF sl.card = "repeated" THEN SExt(v) ELSE v8, keep), p2 + n)
         [] wt = 1 -> IF p2 + 7 > fr.end THEN Bad(s)
                      ELSE SetTop(s, [fr EXCEPT !.val = Put(fr.ty, fr.val, slot, alt, SubSeq(b, p2, p2 + 7))], p2 + 8)
         [] wt = 5 -> IF p2 + 3 > fr.end THEN Bad(s)
                      ELSE SetTop(s, [fr EXCEPT !.val = Put(fr.ty, fr.val, slot, alt, SubSeq(b, p2, p2 + 3))], p2 + 4)
         [] wt = 2 -> LET n == VarLen(b, p2, fr.end) IN IF n = 0 THEN Bad(s)
                      ELSE LET l == NatOf(b, p2, n) st == p2 + n e == st + l - 1
                           IN IF l < 0 \/ l > fr.end - (st - 1) THEN Bad(s)
                              ELSE IF sl.card = "map"
                              THEN \* deliberate deviation of hpp-proto: an entry starts with its key
                                   IF l = 0 THEN Bad(s)
                                   ELSE IF b[st] \div 8 # 1 THEN (IF Depth(s) + 1 > maxd THEN Deep(s) ELSE Bad(s))
                                   ELSE Push(s, Frame(sl.sub, DefaultTab[sl.sub], e, 0, slot, alt, p, TRUE), st, maxd)
                              ELSE IF wantk = "msg"
                              THEN Push(s, Frame(f.sub, Base(fr.ty, fr.val, slot, alt), e, 0, slot, alt, p, FALSE), st, maxd)
                              ELSE IF Illegal(f, SubSeq(b, st, e)) THEN Bad(s)
                              ELSE SetTop(s, [fr EXCEPT !.val = Put(fr.ty, fr.val, slot, alt, SubSeq(b, st, e))], e + 1)
         [] wt = 3 -> Push(s, Frame(f.sub, Base(fr.ty, fr.val, slot, alt), fr.end, num, slot, alt, p, FALSE), p2, maxd)
ReadField(b, keep, maxd, s) ==
  LET fr == Top(s) p == s.pos n == VarLen(b, p, fr.end) IN
  IF n = 0 \/ n > 5 THEN Bad(s)
  ELSE LET d1 == b[p] % 128 wt == d1 % 8
           num == (d1 \div 8) + Dg(b,p,n,2) * 16 + Dg(b,p,n,3) * 2048 + Dg(b,p,n,4) * 262144
                  + (Dg(b,p,n,5) % 16) * 33554432
           p2 == p + n
       IN IF num = 0 THEN Bad(s)
          ELSE IF wt = 4 THEN EndGroup(b, keep, s, p2, num)
          ELSE IF fr.ty # 0 /\ Known(fr.ty, num) THEN ReadKnown(b, keep, maxd, s, p, p2, num, wt)
          ELSE SkipUnknown(b, keep, maxd, s, p, p2, num, wt)
Step(b, keep, maxd, s) ==
  IF s.pos > Top(s).end THEN EndOfRegion(b, keep, s) ELSE ReadField(b, keep, maxd, s)
RECURSIVE Run(_,_,_,_)
Run(b, keep, maxd, s) == IF s.status = "run" THEN Run(b, keep, maxd, Step(b, keep, maxd, s)) ELSE s
Decode(t, b, keep, maxd) == Run(b, keep, maxd, Start0(t, b))
Value(s) == s.stk[1].val
---------------------------------------------------------------------------
(* A message that holds illegal text anywhere cannot be encoded            *)
RECURSIVE Encodable(_,_)
EncodableV(f, v) == IF f.kind \in {"msg","group"} THEN Encodable(f.sub, v)
                    ELSE IF f.kind = "string" THEN ~Illegal(f, v) ELSE TRUE
EncodableSlot(s, v) ==
  CASE s.card \in {"implicit","required"} -> EncodableV(s.f[1], v)
    [] s.card \in {"optional","repeated"} -> \A i \in 1..Len(v) : EncodableV(s.f[1], v[i])
    [] s.card = "map" -> \A i \in 1..Len(v) : EncodableV(s.f[1], v[i][1]) /\ EncodableV(s.f[2], v[i][2])
    [] s.card = "oneof" -> v = <<>> \/ EncodableV(s.f[v[1]], v[2])
Encodable(t, m) == \A i \in 1..Len(Schema[t]) : EncodableSlot(Schema[t][i], m[i])
---------------------------------------------------------------------------
(* Merging two messages                                                    *)
RECURSIVE Merge(_,_,_)
RECURSIVE PutAll(_,_)
PutAll(m, w) == IF w = <<>> THEN m ELSE PutAll(MapPut(m, w[1][1], w[1][2]), Tail(w))
IsMsg(f) == f.kind \in {"msg", "group"}
Unset(f, v) == IF f.kind \in {"string","bytes"} THEN v = <<>> ELSE IsZero(v)
MergeSlot(s, v, w) ==
  CASE s.card = "implicit" -> IF Unset(s.f[1], w) THEN v ELSE w
    [] s.card = "required" -> IF IsMsg(s.f[1]) THEN Merge(s.f[1].sub, v, w) ELSE w
    [] s.card = "optional" -> IF w = <<>> THEN v ELSE IF v = <<>> \/ ~IsMsg(s.f[1]) THEN w
                              ELSE <<Merge(s.f[1].sub, v[1], w[1])>>
    [] s.card = "repeated" -> v \o w
    [] s.card = "map" -> PutAll(v, w)
    [] s.card = "oneof" -> IF w = <<>> THEN v
                           ELSE IF v # <<>> /\ v[1] = w[1] /\ IsMsg(s.f[w[1]])
                           THEN <<w[1], Merge(s.f[w[1]].sub, v[2], w[2])>> ELSE w
Merge(t, v, w) == [i \in 1..Len(v) |-> IF i = Len(v) THEN v[i] \o w[i] ELSE MergeSlot(Schema[t][i], v[i], w[i])]
---------------------------------------------------------------------------
(* Order of keys as numbers / text                                         *)
SIGNED == {"int32","sint32","sfixed32","int64","sint64","sfixed64","enum"}
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
KeyBytes(k, v) == IF k \in {"string","bytes"} THEN v
                  ELSE LET r == Rev(v) IN IF k \in SIGNED THEN [r EXCEPT ![1] = (@ + 128) % 256] ELSE r
KeyLess(k, a, b) == LexLess(KeyBytes(k, a), KeyBytes(k, b))
RECURSIVE OrderedMaps(_,_)
OrderedSlot(s, v) ==
  CASE s.card = "map" -> /\ \A i \in 1..(Len(v) - 1) : KeyLess(s.f[1].kind, v[i][1], v[i+1][1])
                         /\ IsMsg(s.f[2]) => \A i \in 1..Len(v) : OrderedMaps(s.f[2].sub, v[i][2])
    [] s.card = "oneof" -> v # <<>> /\ IsMsg(s.f[v[1]]) => OrderedMaps(s.f[v[1]].sub, v[2])
    [] s.card \in {"optional","repeated"} -> IsMsg(s.f[1]) => \A i \in 1..Len(v) : OrderedMaps(s.f[1].sub, v[i])
    [] OTHER -> IsMsg(s.f[1]) => OrderedMaps(s.f[1].sub, v)
OrderedMaps(t, m) == \A i \in 1..Len(Schema[t]) : OrderedSlot(Schema[t][i], m[i])
===========================================================================
