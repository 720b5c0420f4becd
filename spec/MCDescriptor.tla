---------------------------- MODULE MCDescriptor ----------------------------
(* Bounded families of descriptor sets, enumerated completely.  Each state  *)
(* is one set; TLC checks laws of the specification on it and exports it    *)
(* with what loading it must give.                                          *)
(*   "feat"  one feature overridden (or not) at every level of a nest       *)
(*   "deps"  every dependency graph on three files                          *)
(*   "oneof" every small message with two declared oneofs at most           *)
(*   "refs"  every reference between fields and the types of two files      *)
(*   "names" every choice of names for nested messages and enums            *)
EXTENDS Descriptor, Json, Randomization
CONSTANTS Family, Stride
VARIABLES st
NoFeats == [p |-> "", e |-> "", r |-> "", u |-> "", m |-> ""]
Field(name, num, type, label, tname) ==
  [name |-> name, num |-> num, type |-> type, label |-> label, tname |-> tname, oneof |-> -1, p3 |-> FALSE, packed |-> "",
   feats |-> NoFeats, json |-> "", def |-> <<>>, dname |-> "", fx |-> "", ext |-> ""]
Message(name, fields, nested) == [name |-> name, fields |-> fields, oneofs |-> 0, nested |-> nested, enums |-> <<>>, exts |-> <<>>, map |-> FALSE, feats |-> NoFeats]
File(name, msgs) == [name |-> name, package |-> "p", syntax |-> "editions", edition |-> 1000, deps |-> <<>>, msgs |-> msgs, enums |-> <<>>, exts |-> <<>>, feats |-> NoFeats]
Enum(name, first) == [name |-> name, vals |-> <<<<name \o "_V", first>>, <<name \o "_W", 2>>>>, feats |-> NoFeats]

(* ---------------------------------------------------------------- features *)
Opts(x) == CASE x = "p" -> {"EXPLICIT", "IMPLICIT"} [] x = "e" -> {"OPEN", "CLOSED"} [] x = "r" -> {"PACKED", "EXPANDED"}
             [] x = "u" -> {"VERIFY", "NONE"} [] x = "m" -> {"LENGTH_PREFIXED", "DELIMITED"}
Leaf(x) == Opts(x) \cup {""} \cup (IF x = "p" THEN {"LEGACY_REQUIRED"} ELSE {})
Mid(x) == Opts(x) \cup {""}
Types == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18>>
TName(t) == IF t = 11 THEN ".p.O.I" ELSE IF t = 14 THEN ".p.O.I.E" ELSE ""
Applies(x, t, l) == CASE x = "p" -> l = 1 [] x = "e" -> FALSE [] x = "r" -> l = 3 /\ t \notin {9, 11, 12} [] x = "u" -> t = 9 [] x = "m" -> t = 11
Nest(sy, ed, x, file, outer, inner, leaf) ==
  LET leafFeats(t, l) == IF Applies(x, t, l) THEN [NoFeats EXCEPT ![x] = leaf] ELSE NoFeats
      fields == [k \in 1..(2 * Len(Types)) |->
                  LET t == Types[(k + 1) \div 2]
                      l == IF k % 2 = 1 THEN 1 ELSE 3
                  IN [Field("f" \o ToString(k), k, t, l, TName(t)) EXCEPT !.feats = leafFeats(t, l)]]
      mp == Field("mp", 100, 11, 3, ".p.O.I.Mp")
      alt == [Field("alt", 101, 5, 1, "") EXCEPT !.oneof = 0]
      entry == [Message("Mp", <<Field("key", 1, 9, 1, ""), Field("value", 2, 11, 1, ".p.O.I")>>, <<>>) EXCEPT !.map = TRUE]
      e == [Enum("E", 0) EXCEPT !.feats = IF x = "e" THEN [NoFeats EXCEPT !.e = leaf] ELSE NoFeats]
      i == [Message("I", fields \o <<mp, alt>>, <<entry>>) EXCEPT !.feats = [NoFeats EXCEPT ![x] = inner], !.enums = <<e>>, !.oneofs = 1]
      o == [Message("O", <<Field("s", 1, 9, 1, ""), Field("n", 2, 11, 1, ".p.O.I"), Field("c", 3, 14, 3, ".p.O.I.E")>>, <<i>>) EXCEPT !.feats = [NoFeats EXCEPT ![x] = outer]]
  IN <<[File("a.proto", <<o>>) EXCEPT !.feats = [NoFeats EXCEPT ![x] = file], !.syntax = sy, !.edition = ed]>>
FeatStates == {[sy |-> s, ed |-> 0, x |-> "p", file |-> "", outer |-> "", inner |-> "", leaf |-> ""] : s \in {"", "proto2", "proto3"}}
   \cup UNION {[sy : {"editions"}, ed : Editions, x : {x}, file : Mid(x), outer : Mid(x), inner : Mid(x), leaf : Leaf(x)] : x \in {"p", "e", "r", "u", "m"}}
NestOf(s) == Nest(s.sy, s.ed, s.x, s.file, s.outer, s.inner, s.leaf)

(* ------------------------------------------------------------ dependencies *)
Names3 == {"a", "b", "c"}
DepStates == SUBSET (Names3 \X Names3)
SeqOf(S) == LET RECURSIVE go(_)
                go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x})
            IN go(S)
DepSet(edges) == LET f(n) == [File(n, <<>>) EXCEPT !.deps = SeqOf({e[2] : e \in {x \in edges : x[1] = n}})]
                 IN <<f("a"), f("b"), f("c")>>
Rankable(edges) == \E r \in [Names3 -> 1..3] : \A e \in edges : r[e[1]] > r[e[2]]

(* ------------------------------------------------------------------ oneofs *)
OneofStates == [n : 0..2, a : -1..2, b : -1..2, c : -1..1, d : -1..1, rep : 0..2, num : {1, 2}]
OneofSet(s) == LET f(k, o) == [Field("f" \o ToString(k), IF k = 3 THEN s.num ELSE 10 + k, 5, IF s.rep = k THEN 3 ELSE 1, "") EXCEPT !.oneof = o]
                   m == [Message("M", <<f(1, s.a), f(2, s.b), f(3, s.c), [f(4, s.d) EXCEPT !.num = 1]>>, <<>>) EXCEPT !.oneofs = s.n]
               IN <<File("a.proto", <<m>>)>>

(* -------------------------------------------------------------- references *)
Refs == {"", "A", ".A", ".p.A", ".p.A.B", ".p.E", ".p.A.E", ".q.A", "p.A", ".p.B"}
RefStates == [t1 : {5, 10, 11, 14}, r1 : Refs, t2 : {11, 14}, r2 : Refs, ext : Refs]
RefSet(s) == LET b == [Message("B", <<Field("x", 2, s.t2, 3, s.r2)>>, <<>>) EXCEPT !.enums = <<>>]
                 a == [Message("A", <<Field("x", 1, s.t1, 1, s.r1)>>, <<b>>) EXCEPT !.enums = <<Enum("E", 0)>>]
                 fa == [File("a.proto", <<a>>) EXCEPT !.exts = <<[Field("x", 1000, 5, 1, "") EXCEPT !.ext = s.ext]>>, !.enums = <<Enum("E", 5)>>]
             IN <<fa, [File("b.proto", <<Message("A", <<>>, <<>>)>>) EXCEPT !.package = "q"]>>

(* ------------------------------------------------------------------- names *)
Nm == {"", "A", "B", "A.B"}
NameStates == [m1 : Nm, n1 : Nm, e1 : Nm, m2 : Nm, e2 : Nm, pk : {"p", "p.A", ""}, f2 : {"a.proto", "b.proto", ""}]
NameSet(s) == LET m1 == [Message(s.m1, <<>>, <<Message(s.n1, <<>>, <<>>)>>) EXCEPT !.enums = <<Enum(s.e1, 0)>>]
              IN <<File("a.proto", <<m1>>), [File(s.f2, <<Message(s.m2, <<>>, <<>>)>>) EXCEPT !.package = s.pk, !.enums = <<Enum(s.e2, 0)>>]>>

States == CASE Family = "feat" -> FeatStates [] Family = "deps" -> DepStates [] Family = "oneof" -> OneofStates
            [] Family = "refs" -> RefStates [] Family = "names" -> NameStates
SetOf(s) == CASE Family = "feat" -> NestOf(s) [] Family = "deps" -> DepSet(s) [] Family = "oneof" -> OneofSet(s)
              [] Family = "refs" -> RefSet(s) [] Family = "names" -> NameSet(s)
(* the whole family, or a random part of it *)
Init == st \in (IF Stride = 1 THEN States ELSE RandomSubset(Cardinality(States) \div Stride, States))
Next == UNCHANGED st
Spec == Init /\ [][Next]_st

(* ---------------------------------------------------------------- the laws *)
InnerFields(set) == LET l == Load(set) IN {l.msgs[k] : k \in {k \in 1..Len(l.msgs) : l.msgs[k].fn = "p.O.I"}}
FeatLaws == LET s == st IN
  /\ WellFormed(NestOf(s))
  \* what is set nearer makes what is set further out irrelevant
  /\ s.inner # "" => \A o \in Mid(s.x) : InnerFields(NestOf(s)) = InnerFields(NestOf([s EXCEPT !.outer = o]))
  /\ s.inner # "" \/ s.outer # "" => \A f \in Mid(s.x) : InnerFields(NestOf(s)) = InnerFields(NestOf([s EXCEPT !.file = f]))
  \* an override may move outwards when nothing lies between
  /\ s.inner = "" /\ s.outer # "" => InnerFields(NestOf(s)) = InnerFields(NestOf([s EXCEPT !.inner = s.outer]))
  \* repeating the default changes nothing
  /\ s.sy = "editions" /\ s.file = "" => Load(NestOf(s)) = Load(NestOf([s EXCEPT !.file = EditionFeats[s.x]]))
Laws == CASE Family = "feat" -> FeatLaws
          [] Family = "deps" -> WellFormed(DepSet(st)) = Rankable(st)
          [] Family = "oneof" -> LET swap(x) == IF x = 0 THEN 1 ELSE IF x = 1 THEN 0 ELSE x   \* oneofs have no order
                                 IN st.n = 2 => WellFormed(OneofSet(st)) = WellFormed(OneofSet([st EXCEPT !.a = swap(st.a), !.b = swap(st.b), !.c = swap(st.c), !.d = swap(st.d)]))
          [] Family = "refs" -> WellFormed(RefSet(st)) => (st.t1 # 5 => st.r1 # "") /\ st.r2 # "" /\ WellFormed(RefSet([st EXCEPT !.ext = ""]))
          [] Family = "names" -> WellFormed(NameSet(st)) = WellFormed(<<NameSet(st)[2], NameSet(st)[1]>>)   \* the order of files is irrelevant
Vec == PrintT("VEC " \o ToJson([set |-> SetOf(st), want |-> Load(SetOf(st))]))
=============================================================================
