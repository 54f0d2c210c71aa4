----------------------------- MODULE SgmlDeser -----------------------------
(***************************************************************************)
(* What a fragment means as a value of a given type.                       *)
(*                                                                         *)
(* A fragment is read as a tree; reading a value of type T at a place of   *)
(* the tree is a function of T and of the tree, not of a cursor moving     *)
(* over events.                                                            *)
(*                                                                         *)
(* Types:  <<"int", kind>>  <<"float", bits>>  <<"bool">>  <<"char">>      *)
(*   <<"str">>  <<"unit">>  <<"ignored">>  <<"any">>  <<"opt", T>>         *)
(*   <<"ref">> (a string slice: text that is lent by the source)           *)
(*   <<"lazy", k>> (takes less than it is given, or nothing)               *)
(*   <<"new", T>> (newtype struct)  <<"seq", T>>  <<"tuple", Ts>>          *)
(*   <<"map", T>>  <<"struct", fields>> with fields <<name, T, missing>>,  *)
(*   missing being "req" or "def" (a default)                              *)
(*   <<"enum", variants>> with <<name, "unit">>, <<name, "newtype", T>>,   *)
(*   <<name, "tuple", Ts>> or <<name, "struct", fields>>                   *)
(* Outcomes: <<"ok", value, next>>, <<"err", reasons>>, or <<"any">> where *)
(* what the documentation promises does not settle the outcome (it may be  *)
(* any value or error, but never a panic).  Reasons are the truths an      *)
(* error may tell (it tells one of them):                                  *)
(*   <<"int", class>> <<"float">> <<"value", text>> (of a boolean or       *)
(*   character) <<"variant", name>> (unknown) <<"type">> (data expected of *)
(*   a text) <<"start">> (an element is needed) <<"missing", field>>       *)
(*   <<"duplicate", field>> <<"length", items>> <<"unsupported", event>>   *)
(*   <<"mismatch", expected, found>> <<"eof">>                             *)
(***************************************************************************)
EXTENDS SgmlChars

Ok(v, j) == <<"ok", v, j>>
Err == <<"err">>
Why(reasons) == <<"err", reasons>>
Because(reason) == Why({reason})
Open == <<"any">>
IsOk(r) == r[1] = "ok"

Dollar == S("$value")

(***************************************************************************)
(* Trees.  A node has a name n, attributes at (<<name, value, given>>) and *)
(* contents kids: <<"t", text>>, <<"e", node>> or <<"x", event>> (a         *)
(* declaration, instruction or section).                                              *)
(***************************************************************************)
NoNode == [ok |-> FALSE, node |-> <<>>, next |-> 0]
RECURSIVE Elem(_, _), Kids(_, _, _, _, _)
AfterAttrs(evs, i) ==      \* first event after the attributes that start at i
   LET A == {"attr", "attr0"}
       Stop == {j \in i..Len(evs) : evs[j][1] \notin A}
   IN IF Stop = {} THEN Len(evs) + 1 ELSE CHOOSE j \in Stop : \A k \in Stop : j <= k
Elem(evs, i) ==
   LET j == AfterAttrs(evs, i + 1) IN
   IF j > Len(evs) \/ evs[j][1] # "close" THEN NoNode
   ELSE Kids(evs, evs[i][2], [k \in 1..(j - i - 1) |-> LET e == evs[i + k] IN IF e[1] = "attr" THEN <<e[2], e[3], TRUE>> ELSE <<e[2], <<>>, FALSE>>], j + 1, <<>>)
Kids(evs, n, at, i, acc) ==
   IF i > Len(evs) THEN NoNode
   ELSE LET e == evs[i] IN
        CASE e[1] = "end"  -> IF e[2] = n THEN [ok |-> TRUE, node |-> [n |-> n, at |-> at, kids |-> acc], next |-> i + 1] ELSE NoNode
          [] e[1] = "text" -> Kids(evs, n, at, i + 1, Append(acc, <<"t", e[2]>>))
          [] e[1] \in {"pi", "decl", "sect"} -> Kids(evs, n, at, i + 1, Append(acc, <<"x", e>>))
          [] e[1] = "open" -> LET c == Elem(evs, i) IN IF c.ok THEN Kids(evs, n, at, c.next, Append(acc, <<"e", c.node>>)) ELSE NoNode
          [] OTHER -> NoNode
\* Do the start and end tags that begin at i nest properly, up to the end of the element that starts there?
RECURSIVE Nests(_, _, _)
Nests(evs, i, stack) ==
   IF i > Len(evs) THEN FALSE
   ELSE CASE evs[i][1] = "open" -> Nests(evs, i + 1, Append(stack, evs[i][2]))
          [] evs[i][1] = "end"  -> IF stack[Len(stack)] # evs[i][2] THEN FALSE
                                   ELSE IF Len(stack) = 1 THEN TRUE
                                   ELSE Nests(evs, i + 1, SubSeq(stack, 1, Len(stack) - 1))
          [] OTHER -> Nests(evs, i + 1, stack)

Blank(t) == \A k \in 1..Len(t) : t[k] \in Space
IsElem(k) == k[1] = "e"
IsBadKid(k) == k[1] = "x" \/ (k[1] = "e" /\ k[2].n = <<>>)
HasElem(nd) == \E k \in 1..Len(nd.kids) : IsElem(nd.kids[k])
\* the next element at or after i, or Len + 1
NextElem(sibs, i) == LET E == {k \in i..Len(sibs) : IsElem(sibs[k])} IN IF E = {} THEN Len(sibs) + 1 ELSE CHOOSE k \in E : \A m \in E : k <= m
\* everything inside is supported
RECURSIVE Clean(_)
Clean(nd) == \A k \in 1..Len(nd.kids) : ~IsBadKid(nd.kids[k]) /\ (IsElem(nd.kids[k]) => Clean(nd.kids[k][2]))
\* what is not supported, of a node's own contents, and of everything inside
BadEvent(k) == IF k[1] = "x" THEN k[2] ELSE <<"open", <<>>>>
BadOf(kids) == {<<"unsupported", BadEvent(kids[k])>> : k \in {j \in 1..Len(kids) : IsBadKid(kids[j])}}
BadKids(nd) == BadOf(nd.kids)
RECURSIVE BadInside(_)
BadInside(nd) == BadKids(nd) \cup UNION {BadInside(nd.kids[k][2]) : k \in {j \in 1..Len(nd.kids) : IsElem(nd.kids[j])}}
RECURSIVE TextFrom(_, _)
TextFrom(kids, i) == IF i > Len(kids) THEN <<>>
                     ELSE (CASE kids[i][1] = "t" -> kids[i][2] [] IsElem(kids[i]) -> TextFrom(kids[i][2].kids, 1) [] OTHER -> <<>>) \o TextFrom(kids, i + 1)
TextOf(nd) == TextFrom(nd.kids, 1)
\* Text can be lent if it is in one piece.
RECURSIVE Pieces(_, _)
Pieces(kids, i) == IF i > Len(kids) THEN 0
                   ELSE (CASE kids[i][1] = "t" -> (IF kids[i][2] = <<>> THEN 0 ELSE 1) [] IsElem(kids[i]) -> Pieces(kids[i][2].kids, 1) [] OTHER -> 0) + Pieces(kids, i + 1)
InOnePiece(nd) == Pieces(nd.kids, 1) <= 1

(***************************************************************************)
(* Scalars from text.                                                      *)
(***************************************************************************)
DigitOf == [c \in Digits |-> CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4 [] c="5"->5 [] c="6"->6 [] c="7"->7 [] c="8"->8 [] c="9"->9]
RECURSIVE DropZeros(_)
DropZeros(d) == IF Len(d) > 1 /\ d[1] = "0" THEN DropZeros(Tail(d)) ELSE d
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN LexLeq(a, b, i + 1) ELSE DigitOf[a[i]] < DigitOf[b[i]]
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))     \* without leading zeros
Signed == {"i8", "i16", "i32", "i64"}
GreatestOf == [i8 |-> S("127"), i16 |-> S("32767"), i32 |-> S("2147483647"), i64 |-> S("9223372036854775807"),
          u8 |-> S("255"), u16 |-> S("65535"), u32 |-> S("4294967295"), u64 |-> S("18446744073709551615")]
LeastOf == [i8 |-> S("128"), i16 |-> S("32768"), i32 |-> S("2147483648"), i64 |-> S("9223372036854775808")]
AllDigits(d) == d # <<>> /\ \A k \in 1..Len(d) : d[k] \in Digits
IntOf(kind, t) ==
   LET sign == IF t # <<>> /\ t[1] \in {"+", "-"} THEN t[1] ELSE ""
       d == IF sign = "" THEN t ELSE Tail(t)
       z == DropZeros(d)
       no(class) == <<"int", class>>
   IN IF t = <<>> THEN Because(no("Empty"))
      ELSE IF ~AllDigits(d) THEN Why({no("InvalidDigit")} \cup (IF Len(d) > 2 THEN {no("PosOverflow"), no("NegOverflow")} ELSE {}))
      ELSE IF sign = "-"
      THEN IF kind \notin Signed THEN Because(no("InvalidDigit"))
           ELSE IF ~NumLeq(z, LeastOf[kind]) THEN Because(no("NegOverflow"))
           ELSE <<"ok", <<"int", IF z = <<"0">> THEN z ELSE <<"-">> \o z>>>>
      ELSE IF NumLeq(z, GreatestOf[kind]) THEN <<"ok", <<"int", z>>>> ELSE Because(no("PosOverflow"))

\* What is no number is an error; so is none of what is one.  What value it has is specified for those that have few enough
\* digits to be written back the same, and that are not very large or small (the words for infinity and for no number at all,
\* and the others, may be anything).
FloatWords == {S("inf"), S("infinity"), S("nan")}
RECURSIVE DropEnd(_)
DropEnd(d) == IF d # <<>> /\ d[Len(d)] = "0" THEN DropEnd(SubSeq(d, 1, Len(d) - 1)) ELSE d
LeadingZeros(d) == LET N == {k \in 1..Len(d) : d[k] # "0"} IN IF N = {} THEN Len(d) ELSE (CHOOSE k \in N : \A j \in N : k <= j) - 1
Zeros(n) == [k \in 1..n |-> "0"]
RECURSIVE NatOf(_, _)
NatOf(d, acc) == IF d = <<>> THEN acc ELSE NatOf(Tail(d), 10 * acc + DigitOf[d[1]])
FloatOf(bits, t) ==
   LET signed == t # <<>> /\ t[1] \in {"+", "-"}
       u == IF signed THEN Tail(t) ELSE t
       es == {k \in 1..Len(u) : u[k] \in {"e", "E"}}
       e == IF es = {} THEN Len(u) + 1 ELSE CHOOSE k \in es : \A j \in es : k <= j
       m == SubSeq(u, 1, e - 1)
       x == SubSeq(u, e + 1, Len(u))
       dots == {k \in 1..Len(m) : m[k] = "."}
       dot == IF dots = {} THEN Len(m) + 1 ELSE CHOOSE k \in dots : TRUE
       ip == SubSeq(m, 1, dot - 1)
       fp == SubSeq(m, dot + 1, Len(m))
       xneg == x # <<>> /\ x[1] = "-"
       xd == IF x # <<>> /\ x[1] \in {"+", "-"} THEN Tail(x) ELSE x
       number == Cardinality(dots) <= 1 /\ AllDigits(ip \o fp) /\ (es = {} \/ AllDigits(xd))
       \* its digits, and where the point is: 0.d1 d2 d3 ... times ten to the power of that
       z == LeadingZeros(ip \o fp)
       d == DropEnd(SubSeq(ip \o fp, z + 1, Len(ip \o fp)))
       xz == IF es = {} THEN <<"0">> ELSE DropZeros(xd)
       p == Len(ip) - z + (IF xneg THEN 0 - NatOf(xz, 0) ELSE NatOf(xz, 0))
       most == IF bits = "f32" THEN 6 ELSE 15
       far == IF bits = "f32" THEN 37 ELSE 307
       sign == IF t[1] = "-" THEN <<"-">> ELSE <<>>
   IN IF ~number THEN IF AsciiLower(u) \in FloatWords THEN Open ELSE Because(<<"float">>)
      ELSE IF d = <<>> THEN <<"ok", <<"float", sign \o <<"0">>>>>>
      ELSE IF Len(d) > most \/ Len(xz) > 4 THEN Open
      ELSE IF p > far \/ p < 0 - far THEN Open
      ELSE <<"ok", <<"float", sign \o (IF p <= 0 THEN <<"0", ".">> \o Zeros(0 - p) \o d
                                       ELSE IF p >= Len(d) THEN d \o Zeros(p - Len(d))
                                       ELSE SubSeq(d, 1, p) \o <<".">> \o SubSeq(d, p + 1, Len(d)))>>>>

BoolOf(t) == LET l == AsciiLower(t) IN
   CASE l = S("true") \/ l = S("1") -> <<"ok", <<"bool", TRUE>>>>
     [] l = S("false") \/ l = S("0") -> <<"ok", <<"bool", FALSE>>>>
     [] OTHER -> Because(<<"value", t>>)

Scalar == {"int", "float", "bool", "char", "str"}
ScalarOf(T, t) ==
   CASE T[1] = "int"   -> IntOf(T[2], t)
     [] T[1] = "float" -> FloatOf(T[2], t)
     [] T[1] = "bool"  -> BoolOf(t)
     [] T[1] = "char"  -> IF Len(t) = 1 THEN <<"ok", <<"char", t>>>> ELSE Because(<<"value", t>>)
     [] T[1] = "str"   -> <<"ok", <<"str", t>>>>

(***************************************************************************)
(* Enums, by text.                                                         *)
(***************************************************************************)
VariantsNamed(vs, n) == {k \in 1..Len(vs) : vs[k][1] = n}
EnumOf(vs, t) ==     \* text selects variants without data only
   LET K == VariantsNamed(vs, t) IN
   IF K = {} THEN Because(<<"variant", t>>)
   ELSE LET v == vs[CHOOSE k \in K : TRUE] IN
        IF v[2] = "unit" THEN <<"ok", <<"var", v[1], <<"unit">>>>>> ELSE Because(<<"type">>)

Wrapped(tag, r) == IF r[1] = "ok" THEN [r EXCEPT ![2] = <<tag, r[2]>>] ELSE r

(***************************************************************************)
(* Values from attributes, and from the text of an element ("$value").     *)
(***************************************************************************)
RECURSIVE FromAttr(_, _, _)
FromAttr(T, key, val) ==
   CASE T[1] = "bool" -> IF val = <<>> \/ AsciiLower(val) = AsciiLower(key) THEN <<"ok", <<"bool", TRUE>>>> ELSE BoolOf(val)
     [] T[1] \in Scalar \ {"bool"} -> ScalarOf(T, val)
     [] T[1] \in {"unit", "ignored"} -> <<"ok", <<"unit">>>>
     [] T[1] \in {"any", "ref"} -> <<"ok", <<"str", val>>>>
     [] T[1] = "opt" -> Wrapped("some", FromAttr(T[2], key, val))
     [] T[1] = "new" -> Wrapped("new", FromAttr(T[2], key, val))
     [] T[1] = "enum" -> EnumOf(T[2], val)
     [] OTHER -> Because(<<"start">>)    \* sequences, tuples, structs and maps
RECURSIVE FromText(_, _, _)
FromText(T, txt, one) ==
   CASE T[1] \in Scalar -> ScalarOf(T, txt)
     [] T[1] \in {"unit", "ignored"} -> <<"ok", <<"unit">>>>
     [] T[1] = "ref" -> IF one THEN <<"ok", <<"str", txt>>>> ELSE Because(<<"type">>)
     [] T[1] = "any" -> <<"ok", <<"str", txt>>>>
     [] T[1] = "opt" -> Wrapped("some", FromText(T[2], txt, one))
     [] T[1] = "new" -> Wrapped("new", FromText(T[2], txt, one))
     [] T[1] = "enum" -> EnumOf(T[2], txt)
     [] T[1] = "seq" -> IF txt = <<>> THEN <<"ok", <<"seq", <<>>>>>> ELSE Open
     [] T[1] = "tuple" -> IF txt = <<>> THEN Because(<<"length", 0>>) ELSE Open
     [] OTHER -> Because(<<"start">>)

(***************************************************************************)
(* Values from elements.  ReadAt reads a value from the siblings sibs,     *)
(* starting at the element sibs[i]; key is <<name>> where the value is     *)
(* looked for under that name, and <<>> where any name will do.            *)
(***************************************************************************)
RECURSIVE ReadAt(_, _, _, _), ReadElem(_, _), ReadSeq(_, _, _, _, _), ReadTuple(_, _, _, _, _), ReadEnum(_, _, _, _),
          ReadVariant(_, _, _), ReadPayload(_, _), ReadMap(_, _, _, _, _, _), ReadMapping(_, _, _, _, _)

\* the run of siblings a sequence or tuple looks at: the next item from i on, "stop", or the outcome if it is not settled
NextItem(sibs, i, key) ==
   LET j == NextElem(sibs, i)
       isnext == j <= Len(sibs) /\ (key = <<>> \/ sibs[j][2].n = key[1])
       between == i..(IF j <= Len(sibs) THEN j - 1 ELSE Len(sibs))
       bad(ks) == Why(BadOf([k \in 1..Len(sibs) |-> IF k \in ks THEN sibs[k] ELSE <<"t", <<>>>>]))
   IN IF \E k \in between : sibs[k][1] = "x" THEN IF \E k \in between : sibs[k][1] = "t" /\ ~Blank(sibs[k][2]) THEN <<"any">> ELSE bad(between)
      ELSE IF ~isnext THEN IF j <= Len(sibs) /\ sibs[j][2].n = <<>> THEN bad({j}) ELSE <<"stop">>
      ELSE IF sibs[j][2].n = <<>> THEN bad({j})
      ELSE IF \E k \in between : ~Blank(sibs[k][2]) THEN <<"any">>
      ELSE <<"item", j>>

ReadAt(T, sibs, i, key) ==
   LET nd == sibs[i][2] IN
   IF nd.n = <<>> THEN Because(<<"unsupported", <<"open", <<>>>>>>)
   ELSE CASE T[1] = "opt"   -> Wrapped("some", ReadAt(T[2], sibs, i, key))
          [] T[1] = "new"   -> Wrapped("new", ReadAt(T[2], sibs, i, key))
          [] T[1] = "seq"   -> ReadSeq(T[2], sibs, i, key, <<>>)
          [] T[1] = "tuple" -> IF T[2] = <<>> THEN Open ELSE ReadTuple(T[2], sibs, i, key, <<>>)
          [] T[1] = "enum"  -> ReadEnum(T[2], sibs, i, key)
          [] OTHER -> LET r == ReadElem(T, nd) IN IF IsOk(r) THEN Ok(r[2], i + 1) ELSE r

ReadSeq(T, sibs, i, key, acc) ==
   LET x == NextItem(sibs, i, key) IN
   CASE x[1] = "stop" -> Ok(<<"seq", acc>>, i)
     [] x[1] = "item" -> LET r == ReadAt(T, sibs, x[2], key) IN
                         IF IsOk(r) THEN ReadSeq(T, sibs, r[3], key, Append(acc, r[2])) ELSE r
     [] OTHER -> x
ReadTuple(Ts, sibs, i, key, acc) ==
   IF Len(acc) = Len(Ts) THEN Ok(<<"tuple", acc>>, i)
   ELSE LET x == NextItem(sibs, i, key) IN
        CASE x[1] = "stop" -> Because(<<"length", Len(acc)>>)
          [] x[1] = "item" -> LET r == ReadAt(Ts[Len(acc) + 1], sibs, x[2], key) IN
                              IF IsOk(r) THEN ReadTuple(Ts, sibs, r[3], key, Append(acc, r[2])) ELSE r
          [] x[1] = "err" -> IF i <= Len(sibs) /\ sibs[i][1] = "t" /\ ~Blank(sibs[i][2]) THEN Why(x[2] \cup {<<"length", Len(acc)>>}) ELSE x
          [] OTHER -> x

\* An element, by itself, as a value of a type that takes one element.
ReadElem(T, nd) ==
   CASE T[1] \in Scalar -> IF ~Clean(nd) THEN Why(BadInside(nd)) ELSE ScalarOf(T, TextOf(nd))
     [] T[1] = "ref" -> IF ~Clean(nd) THEN Why(BadInside(nd)) ELSE IF InOnePiece(nd) THEN <<"ok", <<"str", TextOf(nd)>>>> ELSE Because(<<"type">>)
     [] T[1] \in {"unit", "ignored"} -> IF ~Clean(nd) THEN Open ELSE <<"ok", <<"unit">>>>
     [] T[1] = "struct" -> LET d == \E k \in 1..Len(T[2]) : T[2][k][1] = Dollar
                           IN ReadMap(T[2], nd, d, 1, 1, [k \in 1..Len(T[2]) |-> <<>>])
     [] T[1] = "map" -> ReadMapping(T[2], nd, FALSE, 1, <<>>)
     [] T[1] = "any" ->
        IF nd.at # <<>> \/ HasElem(nd) THEN ReadMapping(T, nd, ~HasElem(nd), 1, <<>>)
        ELSE IF \E k \in 1..Len(nd.kids) : IsBadKid(nd.kids[k]) THEN IF TextOf(nd) = <<>> THEN Open ELSE Why(BadKids(nd))
        ELSE IF TextOf(nd) # <<>> THEN <<"ok", <<"str", TextOf(nd)>>>> ELSE <<"ok", <<"unit">>>>

\* The fields of a struct: a is the next attribute, i the next content, vals the values so far (<<>>, or <<value>>).
FieldNamed(fs, n) == LET K == {k \in 1..Len(fs) : fs[k][1] = n} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Absent(f) == IF f[3] = "def" THEN <<"ok", <<"default">>>> ELSE IF f[2][1] = "opt" THEN <<"ok", <<"none">>>> ELSE Because(<<"missing", f[1]>>)
Finish(fs, vals) ==
   LET all == [k \in 1..Len(fs) |-> IF vals[k] # <<>> THEN <<"ok", vals[k][1]>> ELSE Absent(fs[k])]
   IN IF \E k \in 1..Len(fs) : ~IsOk(all[k])
      THEN Why(UNION {IF IsOk(all[k]) THEN {} ELSE all[k][2] : k \in 1..Len(fs)}) ELSE <<"ok", <<"struct", [k \in 1..Len(fs) |-> all[k][2]]>>>>
ReadMap(fs, nd, dollar, a, i, vals) ==
   LET isText == ~HasElem(nd)
       d == FieldNamed(fs, Dollar)
   IN
   IF a <= Len(nd.at)
   THEN LET at == nd.at[a]
            k == FieldNamed(fs, at[1])
        IN IF k = 0 THEN ReadMap(fs, nd, dollar, a + 1, i, vals)
           ELSE IF vals[k] # <<>> THEN Because(<<"duplicate", at[1]>>)
           ELSE LET r == FromAttr(fs[k][2], at[1], at[2]) IN
                IF IsOk(r) THEN ReadMap(fs, nd, dollar, a + 1, i, [vals EXCEPT ![k] = <<r[2]>>]) ELSE r
   ELSE IF dollar /\ isText
   THEN IF \E k \in 1..Len(nd.kids) : IsBadKid(nd.kids[k]) THEN Why(BadKids(nd))
        ELSE LET r == FromText(fs[d][2], TextOf(nd), InOnePiece(nd)) IN
             IF vals[d] # <<>> THEN Because(<<"duplicate", Dollar>>)
             ELSE IF IsOk(r) THEN Finish(fs, [vals EXCEPT ![d] = <<r[2]>>]) ELSE r
   ELSE IF i > Len(nd.kids) THEN Finish(fs, vals)
   ELSE LET kid == nd.kids[i] IN
        IF IsBadKid(kid) THEN Why(BadOf(<<kid>>))
        ELSE IF ~IsElem(kid) THEN IF dollar /\ ~Blank(kid[2]) THEN Open ELSE ReadMap(fs, nd, dollar, a, i + 1, vals)
        ELSE LET k == IF dollar THEN d ELSE FieldNamed(fs, kid[2].n) IN
             IF k = 0 THEN IF Clean(kid[2]) THEN ReadMap(fs, nd, dollar, a, i + 1, vals) ELSE Open
             ELSE IF vals[k] # <<>> THEN Because(<<"duplicate", fs[k][1]>>)
             ELSE LET r == ReadAt(fs[k][2], nd.kids, i, IF dollar THEN <<>> ELSE <<kid[2].n>>) IN
                  IF IsOk(r) THEN ReadMap(fs, nd, dollar, a, r[3], [vals EXCEPT ![k] = <<r[2]>>]) ELSE r

\* All entries, in order. An "any" without child elements has its text under "$value".
RECURSIVE AttrEntries(_, _, _, _)
AttrEntries(T, at, a, acc) ==
   IF a > Len(at) THEN <<"ok", acc>>
   ELSE LET r == FromAttr(T, at[a][1], at[a][2]) IN
        IF IsOk(r) THEN AttrEntries(T, at, a + 1, Append(acc, <<at[a][1], r[2]>>)) ELSE r
ReadMapping(T, nd, dollar, i, acc) ==
   LET e == AttrEntries(T, nd.at, 1, <<>>) IN
   IF i = 1 /\ acc = <<>> /\ nd.at # <<>> /\ ~IsOk(e) THEN e
   ELSE IF dollar
   THEN IF \E k \in 1..Len(nd.kids) : IsBadKid(nd.kids[k]) THEN Why(BadKids(nd))
        ELSE <<"ok", <<"map", e[2] \o << <<Dollar, <<"str", TextOf(nd)>>>> >>>>>>
   ELSE IF i > Len(nd.kids) THEN <<"ok", <<"map", e[2] \o acc>>>>
   ELSE LET kid == nd.kids[i] IN
        IF IsBadKid(kid) THEN Why(BadOf(<<kid>>))
        ELSE IF ~IsElem(kid) THEN ReadMapping(T, nd, dollar, i + 1, acc)
        ELSE LET r == ReadAt(T, nd.kids, i, <<kid[2].n>>) IN
             IF IsOk(r) THEN ReadMapping(T, nd, dollar, r[3], Append(acc, <<kid[2].n, r[2]>>)) ELSE r

ReadEnum(vs, sibs, i, key) ==
   IF key = <<>> THEN ReadVariant(vs, sibs, i)
   ELSE LET nd == sibs[i][2]
            E == {k \in 1..Len(nd.kids) : IsElem(nd.kids[k])}
            first == NextElem(nd.kids, 1)
        IN IF E = {}
           THEN IF ~Clean(nd) THEN Why(BadInside(nd))
                ELSE LET r == EnumOf(vs, TextOf(nd)) IN IF IsOk(r) THEN Ok(r[2], i + 1) ELSE r
           ELSE IF \E k \in 1..(first - 1) : nd.kids[k][1] = "x"
                THEN Why(BadOf(SubSeq(nd.kids, 1, first - 1))
                         \cup (IF \E k \in 1..(first - 1) : nd.kids[k][1] = "t" /\ ~Blank(nd.kids[k][2]) THEN {<<"start">>} ELSE {}))
           ELSE IF \E k \in 1..(first - 1) : ~Blank(nd.kids[k][2]) THEN Open
           ELSE LET r == ReadVariant(vs, nd.kids, first) IN
                IF ~IsOk(r) THEN r
                ELSE IF \E k \in r[3]..Len(nd.kids) : nd.kids[k][1] # "t" \/ ~Blank(nd.kids[k][2]) THEN Open
                ELSE Ok(r[2], i + 1)

ReadVariant(vs, sibs, i) ==
   LET nd == sibs[i][2]
       K == VariantsNamed(vs, nd.n)
   IN IF nd.n = <<>> THEN Because(<<"unsupported", <<"open", <<>>>>>>)
      ELSE IF K = {} THEN Because(<<"variant", nd.n>>)
      ELSE LET v == vs[CHOOSE k \in K : TRUE] IN
           IF v[2] = "tuple"
           THEN LET r == ReadTuple(v[3], sibs, i, <<nd.n>>, <<>>) IN IF IsOk(r) THEN Ok(<<"var", v[1], r[2]>>, r[3]) ELSE r
           ELSE LET r == CASE v[2] = "unit" -> ReadElem(<<"unit">>, nd)
                           [] v[2] = "newtype" -> ReadPayload(v[3], nd)
                           [] v[2] = "struct" -> ReadElem(<<"struct", v[3]>>, nd)
                IN IF IsOk(r) THEN Ok(<<"var", v[1], r[2]>>, i + 1) ELSE r

\* The payload of a newtype variant, read from the variant's element.
ReadPayload(T, nd) ==
   CASE T[1] = "opt" -> Wrapped("some", ReadPayload(T[2], nd))
     [] T[1] = "new" -> Wrapped("new", ReadPayload(T[2], nd))
     [] T[1] = "seq" /\ T[2][1] \in Scalar \cup {"ref"} /\ nd.at = <<>> /\ nd.kids # <<>> /\ ~Blank(TextOf(nd)) /\ \A k \in 1..Len(nd.kids) : nd.kids[k][1] = "t" ->
        LET r == ReadElem(T[2], nd) IN IF IsOk(r) THEN [r EXCEPT ![2] = <<"seq", <<r[2]>>>>] ELSE r      \* one item
     [] T[1] \in {"seq", "tuple"} ->
        IF ~HasElem(nd) /\ (nd.at # <<>> \/ nd.kids # <<>>) THEN Open
        ELSE LET r == IF T[1] = "seq" THEN ReadSeq(T[2], nd.kids, 1, <<>>, <<>>) ELSE ReadTuple(T[2], nd.kids, 1, <<>>, <<>>) IN
             IF ~IsOk(r) THEN r
             ELSE IF NextElem(nd.kids, r[3]) <= Len(nd.kids)
                  THEN Why(BadOf(nd.kids) \cup {<<"unsupported", <<"open", nd.kids[NextElem(nd.kids, r[3])][2].n>>>>})
             ELSE IF \E k \in r[3]..Len(nd.kids) : nd.kids[k][1] # "t" \/ ~Blank(nd.kids[k][2]) THEN Open
             ELSE r
     [] T[1] = "enum" -> ReadEnum(T[2], << <<"e", nd>> >>, 1, <<nd.n>>)
     [] OTHER -> ReadElem(T, nd)

(***************************************************************************)
(* A whole fragment.  The outcome is <<"ok", value>>, <<"err">> or         *)
(* <<"any">>.                                                              *)
(***************************************************************************)
RECURSIVE Inner(_)
Inner(T) == IF T[1] \in {"opt", "new"} THEN Inner(T[2]) ELSE T
\* sequences of roots are not specified
ManyRoots(T) == LET U == Inner(T) IN U[1] \in {"seq", "tuple"} \/ (U[1] = "enum" /\ \E k \in 1..Len(U[2]) : U[2][k][2] = "tuple")
IsTree(evs) == evs # <<>> /\ evs[1][1] = "open" /\ Elem(evs, 1).ok
\* the element read is not properly nested, or ends early, or the fragment does not start with an element
Broken(evs) == \/ evs = <<>> \/ evs[1][1] \notin {"open", "attr", "attr0"}
               \/ evs[1] = <<"open", <<>>>>
               \/ /\ evs[1][1] = "open" /\ \A k \in 1..Len(evs) : evs[k][1] # "xclose"
                  /\ ~Nests(evs, 1, <<>>)
\* Where the first element that is not properly nested goes wrong (or the fragment ends early): the reasons for that, and
\* the fragment if everything open were closed there.
RECURSIVE Breaks(_, _, _)
Breaks(evs, i, stack) ==
   LET n == Len(stack)
       closed == SubSeq(evs, 1, i - 1) \o [k \in 1..n |-> <<"end", stack[n + 1 - k]>>]
   IN IF i > Len(evs) THEN <<{<<"eof">>}, closed>>
      ELSE CASE evs[i][1] = "open" -> Breaks(evs, i + 1, Append(stack, evs[i][2]))
             [] evs[i][1] = "end" -> IF stack[n] # evs[i][2] THEN << {<<"mismatch", stack[n], evs[i][2]>>} \cup (IF evs[i][2] = <<>> THEN {<<"unsupported", evs[i]>>} ELSE {}), closed>>
                                     ELSE Breaks(evs, i + 1, SubSeq(stack, 1, n - 1))
             [] OTHER -> Breaks(evs, i + 1, stack)
Tree(evs, T) == LET r == ReadAt(T, << <<"e", Elem(evs, 1).node>> >>, 1, <<>>) IN
   IF Inner(T)[1] \in {"seq", "tuple"} THEN Open ELSE IF r[1] = "ok" THEN <<"ok", r[2]>> ELSE IF ManyRoots(T) THEN Open ELSE r
\* What types that leave some of what they are given end up with is not specified: only that there is an outcome.
RECURSIVE IsLazy(_)
IsLazy(T) ==
   CASE T[1] = "lazy" -> TRUE
     [] T[1] \in {"opt", "new", "seq", "map"} -> IsLazy(T[2])
     [] T[1] = "tuple" -> \E k \in 1..Len(T[2]) : IsLazy(T[2][k])
     [] T[1] = "struct" -> \E k \in 1..Len(T[2]) : IsLazy(T[2][k][2])
     [] T[1] = "enum" -> \E k \in 1..Len(T[2]) : LET v == T[2][k] IN
                        (CASE v[2] = "unit" -> FALSE
                           [] v[2] = "newtype" -> IsLazy(v[3])
                           [] v[2] = "tuple" -> \E j \in 1..Len(v[3]) : IsLazy(v[3][j])
                           [] v[2] = "struct" -> \E j \in 1..Len(v[3]) : IsLazy(v[3][j][2]))
     [] OTHER -> FALSE
\* the outcome with its reasons (without any where they are not settled)
Reasoned(evs, T) ==
   IF IsLazy(T) \/ (ManyRoots(T) /\ Broken(evs)) THEN Open
   ELSE IF evs = <<>> THEN Why({<<"eof">>, <<"start">>})
   ELSE IF evs[1] \in {<<"open", <<>>>>, <<"end", <<>>>>} \/ evs[1][1] \in {"pi", "decl", "sect"} THEN Because(<<"unsupported", evs[1]>>)
   ELSE IF evs[1][1] \notin {"open", "attr", "attr0"} THEN Because(<<"start">>)
   ELSE IF Broken(evs)
   THEN LET b == Breaks(evs, 2, <<evs[1][2]>>)
            r == IF IsTree(b[2]) THEN Tree(b[2], T) ELSE Open
        IN IF r[1] = "any" THEN Err ELSE Why(b[1] \cup (IF r[1] = "err" THEN r[2] ELSE {}))
   ELSE IF ~IsTree(evs) THEN Open
   ELSE Tree(evs, T)
Outcome(evs, T) == LET r == Reasoned(evs, T) IN IF r[1] = "err" THEN Err ELSE r

(***************************************************************************)
(* Values read one after another from one deserializer, up to the first    *)
(* that cannot be read: each takes the element that comes next, and what   *)
(* was read before does not matter.                                        *)
(***************************************************************************)
RECURSIVE ReadsOn(_, _, _)
ReadsOn(evs, Ts, first) ==
   IF Ts = <<>> THEN <<>>
   ELSE IF ManyRoots(Ts[1]) THEN <<Open>>      \* sequences take more than one
   ELSE IF ~first /\ evs # <<>> /\ evs[1][1] # "open" /\ (evs[1][1] = "text" => Blank(evs[1][2]))
   THEN <<IF evs[1][1] = "text" THEN Open ELSE Err>>
   ELSE LET r == IF ~first /\ evs # <<>> /\ evs[1] = <<"open", <<>>>> THEN Err ELSE Reasoned(evs, Ts[1])
        IN IF r[1] # "ok" THEN <<r>>
           ELSE IF evs[1][1] # "open" THEN <<r, Open>>     \* (an attribute)
           ELSE <<r>> \o ReadsOn(SubSeq(evs, Elem(evs, 1).next, Len(evs)), Tail(Ts), FALSE)
Reads(evs, Ts) == ReadsOn(evs, Ts, TRUE)
=============================================================================
