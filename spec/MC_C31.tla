------------------------------- MODULE MC_C31 -------------------------------
(***************************************************************************)
(* C31: errors tell the truth.  A fragment that is a value of its type is  *)
(* damaged, once or more often, anywhere, and read.  Each reason the       *)
(* specification allows an error to give is then a fact about the          *)
(* fragment, and a single damage is the one that is named.                 *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Big == atoi(IOEnv.BIG)       \* more damage to the larger bases
\* abbreviations
F(n, x) == <<S(n), x, "req">>
D(n, x) == <<S(n), x, "def">>
Struct(fs) == <<"struct", fs>>
Opt(x) == <<"opt", x>>
Seq1(x) == <<"seq", x>>
I8 == <<"int", "i8">>
U16 == <<"int", "u16">>
Str == <<"str">>
Bool == <<"bool">>
EA(n, a, c) == << <<"open", S(n)>> >> \o a \o << <<"close">> >> \o c \o << <<"end", S(n)>> >>
E(n, c) == EA(n, <<>>, c)
T(s) == << <<"text", S(s)>> >>
A(k, v) == << <<"attr", S(k), S(v)>> >>
A0(k) == << <<"attr0", S(k)>> >>
En == <<"enum", << <<S("u"), "unit">>, <<S("n"), "newtype", I8>>, <<S("t"), "tuple", <<I8, Bool>>>>, <<S("s"), "struct", <<F("a", I8)>>>>, <<S("l"), "newtype", Seq1(I8)>> >>>>
Base(doc, ty, big) == [doc |-> doc, ty |-> ty, big |-> big]
Bases == <<
   Base(E("a", T("1")), I8, FALSE),
   Base(EA("r", A("a", "1"), E("b", T("x"))), Struct(<<F("a", I8), F("b", Str), D("c", Bool)>>), FALSE),
   Base(EA("r", A0("b"), T("1.5")), Struct(<<F("$value", <<"float", "f32">>), F("b", Bool)>>), FALSE),
   Base(E("r", E("a", T("1")) \o E("a", T("2"))), Struct(<<F("a", <<"tuple", <<I8, U16>>>>)>>), FALSE),
   Base(E("r", E("a", E("n", T("7")))), Struct(<<F("a", En)>>), FALSE),
   Base(E("r", E("u", <<>>) \o E("n", T("5"))), Struct(<<F("$value", Seq1(En))>>), FALSE),
   Base(E("l", E("i", T("1"))), <<"enum", << <<S("l"), "newtype", Seq1(I8)>>, <<S("s"), "struct", <<F("i", I8)>>>> >>>>, FALSE),
   Base(EA("r", A("c", "x"), E("a", T("y")) \o E("a", T("z"))), Struct(<<F("c", <<"char">>), F("a", Seq1(<<"char">>))>>), FALSE),
   Base(EA("r", A("a", "5"), E("b", T("6"))), <<"map", I8>>, FALSE),
   Base(E("r", E("q", E("z", T("t"))) \o E("a", T("true"))), Struct(<<F("a", Bool)>>), FALSE),
   Base(E("r", E("a", EA("b", A("c", "1"), <<>>))), Struct(<<F("a", Struct(<<F("b", Struct(<<F("c", U16)>>))>>))>>), FALSE),
   Base(EA("r", A("id", "5") \o A0("on"), E("name", T("x")) \o EA("item", A("n", "1"), E("c", T("y"))) \o E("item", E("n", T("2")) \o E("c", T("z")))
        \o E("kind", E("n", T("7"))) \o E("pos", T("1.5")) \o E("pos", T("2"))),
        Struct(<<F("id", I8), F("on", Bool), F("name", Str), F("item", Seq1(Struct(<<F("n", U16), F("c", <<"char">>)>>))), F("kind", En),
                 F("note", Opt(Str)), F("pos", <<"tuple", <<<<"float", "f32">>, <<"float", "f64">>>>>>)>>), TRUE),
   Base(E("r", E("s", E("a", T("1"))) \o E("t", T("2")) \o E("t", T("0")) \o E("l", E("i", T("3")) \o E("i", T("4"))) \o E("u", T("q"))),
        Struct(<<F("$value", Seq1(En))>>), TRUE),
   Base(EA("r", A("k", "v"), E("a", T("x") \o E("b", T("y")) \o T("z")) \o E("m", EA("p", A("q", "w"), <<>>)) \o E("c", <<>>)),
        Struct(<<F("k", <<"any">>), F("a", Str), F("m", <<"map", <<"any">>>>), F("c", <<"unit">>)>>), TRUE) >>

(***************************************************************************)
(* Damage.  An edit changes the fragment at one place.                     *)
(***************************************************************************)
Junk == << <<"pi", S("<?p>")>>, <<"decl", S("D"), S("d")>>, <<"sect", S("CDATA"), S("1")>>, <<"text", S("x")>>, <<"end", S("q")>>, <<"end", <<>>>>,
           <<"open", <<>>>> >>
Texts == << <<>>, S("X"), S("300"), S("-129"), S("-"), S("n") >>
Names == << S("q"), S("a"), S("u") >>
Before(d, i) == SubSeq(d, 1, i - 1)
From(d, i) == SubSeq(d, i, Len(d))
RECURSIVE EndOf(_, _, _)      \* the event that closes the element opened i..; depth levels are open before i
EndOf(d, i, depth) == IF i > Len(d) THEN 0
                      ELSE IF d[i][1] = "open" THEN EndOf(d, i + 1, depth + 1)
                      ELSE IF d[i][1] = "end" THEN IF depth = 1 THEN i ELSE EndOf(d, i + 1, depth - 1)
                      ELSE EndOf(d, i + 1, depth)
InTag(d, i) == d[i - 1][1] \in {"open", "attr", "attr0"}
Texty(e) == e[1] \in {"text", "attr"}
WithText(e, x) == IF e[1] = "text" THEN <<"text", x>> ELSE <<"attr", e[2], x>>
\* an edit: <<what, place, argument>>
Edits(d) ==
   {<<"put", i, j>> : i \in {k \in 3..Len(d) : ~InTag(d, k)}, j \in 1..Len(Junk)}
   \cup {<<"text", i, j>> : i \in {k \in 1..Len(d) : Texty(d[k])}, j \in 1..Len(Texts)}
   \cup {<<"end", i, j>> : i \in {k \in 1..Len(d) : d[k][1] = "end"}, j \in 1..Len(Names)}
   \cup {<<"name", i, j>> : i \in {k \in 2..Len(d) : d[k][1] = "open" /\ EndOf(d, k, 0) > 0}, j \in 1..Len(Names)}
   \cup {<<k, i, 0>> : k \in {"drop", "twice"}, i \in {x \in 2..Len(d) : d[x][1] \in {"attr", "attr0"} \/ (d[x][1] = "open" /\ EndOf(d, x, 0) > 0)}}
   \cup {<<"cut", i, 0>> : i \in 1..(Len(d) - 1)}
LastOf(d, i) == IF d[i][1] = "open" THEN EndOf(d, i, 0) ELSE i
Edited(d, e) == LET i == e[2]  j == e[3] IN
   CASE e[1] = "put"   -> Before(d, i) \o <<Junk[j]>> \o (IF Junk[j][1] = "open" THEN << <<"close">>, <<"end", <<>>>> >> ELSE <<>>) \o From(d, i)
     [] e[1] = "text"  -> [d EXCEPT ![i] = WithText(d[i], Texts[j])]
     [] e[1] = "end"   -> [d EXCEPT ![i] = <<"end", Names[j]>>]
     [] e[1] = "name"  -> [d EXCEPT ![i] = <<"open", Names[j]>>, ![EndOf(d, i, 0)] = <<"end", Names[j]>>]
     [] e[1] = "drop"  -> Before(d, i) \o From(d, LastOf(d, i) + 1)
     [] e[1] = "twice" -> Before(d, i) \o SubSeq(d, i, LastOf(d, i)) \o From(d, i)
     [] e[1] = "cut"   -> Before(d, i + 1)

VARIABLES base, doc, done, out
vars == <<base, doc, done, out>>
Init == \E b \in 1..Len(Bases) : base = b /\ doc = Bases[b].doc /\ done = <<>> /\ out = <<>>
Room == IF Bases[base].big THEN Depth - 1 + Big ELSE Depth
Damage == /\ out = <<>> /\ Len(done) < Room
          /\ \E e \in Edits(doc) : doc' = Edited(doc, e) /\ done' = Append(done, <<e, doc>>) /\ UNCHANGED <<base, out>>
Read == out = <<>> /\ out' = Reasoned(doc, Bases[base].ty) /\ UNCHANGED <<base, doc, done>>
Next == Damage \/ Read
Spec == Init /\ [][Next]_vars
Finished == out # <<>>
Ty == Bases[base].ty
Report == Finished => PrintT(ToJson(<<doc, base, out>>))
ASSUME PrintT(ToJson([types |-> [b \in 1..Len(Bases) |-> Bases[b].ty]]))

Undamaged == Finished /\ done = <<>> => out[1] = "ok"
NeverAccusedWithoutReason == Finished /\ out[1] = "err" /\ Len(out) = 2 => out[2] # {}

(***************************************************************************)
(* Facts about a fragment, found without reading it as a value.            *)
(***************************************************************************)
\* what types there are inside a type
RECURSIVE Parts(_)
Parts(x) == {x} \cup (CASE x[1] \in {"opt", "new", "seq", "map"} -> Parts(x[2])
                        [] x[1] = "tuple" -> UNION {Parts(x[2][k]) : k \in 1..Len(x[2])}
                        [] x[1] = "struct" -> UNION {Parts(x[2][k][2]) : k \in 1..Len(x[2])}
                        [] x[1] = "enum" -> UNION {CASE x[2][k][2] = "unit" -> {}
                                                     [] x[2][k][2] = "newtype" -> Parts(x[2][k][3])
                                                     [] x[2][k][2] = "tuple" -> Parts(<<"tuple", x[2][k][3]>>)
                                                     [] x[2][k][2] = "struct" -> Parts(<<"struct", x[2][k][3]>>) : k \in 1..Len(x[2])}
                        [] OTHER -> {})
TheParts == [b \in 1..Len(Bases) |-> Parts(Bases[b].ty)]
\* the texts there are: of attributes, and between a start tag and the end tags after it
RECURSIVE TextUpTo(_, _, _)
TextUpTo(d, i, j) == IF i > j THEN <<>> ELSE (IF d[i][1] = "text" THEN d[i][2] ELSE <<>>) \o TextUpTo(d, i + 1, j)
Occurring(d) == {d[i][3] : i \in {k \in 1..Len(d) : d[k][1] = "attr"}} \cup (IF \E k \in 1..Len(d) : d[k][1] = "attr0" THEN {<<>>} ELSE {})
   \cup UNION {{TextUpTo(d, i, j) : j \in {k \in i..Len(d) : d[k][1] = "end"}} : i \in {k \in 1..Len(d) : d[k][1] = "open"}}
   \* (the fragment may end, or go wrong, before an end tag)
   \cup UNION {{TextUpTo(d, i, j) : j \in i..Len(d)} : i \in {k \in 1..Len(d) : d[k][1] = "open" /\ ~Nests(d, 1, <<>>)}}
Named(d, n) == \E i \in 1..Len(d) : d[i][1] \in {"open", "attr", "attr0"} /\ d[i][2] = n
Times(d, n) == Cardinality({i \in 1..Len(d) : d[i][1] \in {"open", "attr", "attr0"} /\ d[i][2] = n})
\* how many elements are open after i events, and the end tags for what is open at the end
Balance(d, i) == Cardinality({k \in 1..i : d[k][1] = "open"}) - Cardinality({k \in 1..i : d[k][1] = "end"})
RECURSIVE StillFrom(_, _, _)
StillFrom(d, i, stack) == IF i > Len(d) THEN [k \in 1..Len(stack) |-> <<"end", stack[Len(stack) + 1 - k]>>]
   ELSE IF d[i][1] = "open" THEN StillFrom(d, i + 1, Append(stack, d[i][2]))
   ELSE IF d[i][1] = "end" /\ stack # <<>> THEN StillFrom(d, i + 1, SubSeq(stack, 1, Len(stack) - 1))
   ELSE StillFrom(d, i + 1, stack)
Still(d) == StillFrom(d, 1, <<>>)
True(r, d, ts) ==
   CASE r[1] = "unsupported" -> /\ \E i \in 1..Len(d) : d[i] = r[2]
                                /\ r[2][1] \in {"pi", "decl", "sect"} \/ (r[2][1] \in {"open", "end"} /\ r[2][2] = <<>>)
                                   \/ (r[2][1] = "open" /\ \E x \in ts : x[1] = "enum" /\ \E k \in 1..Len(x[2]) : x[2][k][2] = "newtype")
     [] r[1] = "mismatch" -> \* everything up to that end tag nests, and it does not match the last element that is open
          \E i \in 2..Len(d) : d[i] = <<"end", r[3]>> /\ LET up == SubSeq(d, 1, i - 1) IN
             r[2] # r[3] /\ Nests(up \o << <<"end", r[2]>> >> \o From(Still(up), 2), 1, <<>>)
     [] r[1] = "eof" -> \A i \in 1..Len(d) : Balance(d, i) > 0
     [] r[1] = "int" -> \E x \in ts : x[1] = "int" /\ \E t \in Occurring(d) : LET o == IntOf(x[2], t) IN ~IsOk(o) /\ r \in o[2]
     [] r[1] = "float" -> \E x \in ts : x[1] = "float" /\ \E t \in Occurring(d) : FloatOf(x[2], t)[1] = "err"
     [] r[1] = "value" -> r[2] \in Occurring(d) /\ \E x \in ts : x[1] \in {"bool", "char"} /\ ~IsOk(ScalarOf(x, r[2]))
     [] r[1] = "variant" -> /\ r[2] \in Occurring(d) \/ Named(d, r[2])
                            /\ \E x \in ts : x[1] = "enum" /\ VariantsNamed(x[2], r[2]) = {}
     [] r[1] = "type" -> \E x \in ts : x[1] = "enum" /\ \E k \in 1..Len(x[2]) : x[2][k][2] # "unit" /\ x[2][k][1] \in Occurring(d)
     [] r[1] = "missing" -> \E x \in ts : x[1] \in {"struct", "enum"}
     [] r[1] = "duplicate" -> r[2] = Dollar \/ Times(d, r[2]) > 1
     [] r[1] = "length" -> \E x \in ts : \/ (x[1] = "tuple" /\ r[2] < Len(x[2]))
                                        \/ (x[1] = "enum" /\ \E k \in 1..Len(x[2]) : x[2][k][2] = "tuple" /\ r[2] < Len(x[2][k][3]))
     [] r[1] = "start" -> \E x \in ts : x[1] \in {"struct", "map", "seq", "tuple", "enum"}
Reasons == IF Len(out) = 2 /\ out[1] = "err" THEN out[2] ELSE {}
Truths == Finished => \A r \in Reasons : True(r, doc, TheParts[base])

(***************************************************************************)
(* A single damage is the one that is named.                               *)
(***************************************************************************)
Of(kinds) == {r \in Reasons : r[1] \in kinds}
One == Finished /\ Len(done) = 1
Was == done[1][2]
Edit == done[1][1]
Single == One => LET e == Edit  i == e[2] IN
   CASE e[1] = "put" /\ Junk[e[3]][1] \in {"pi", "decl", "sect", "open"} ->
          out[1] # "ok" \/ Balance(doc, i - 1) = 0
     [] e[1] = "put" /\ Junk[e[3]][1] = "end" ->
          Still(Before(doc, i))[1][2] # Junk[e[3]][2] => out[1] = "err" /\ (Len(out) = 2 => <<"mismatch", Still(Before(doc, i))[1][2], Junk[e[3]][2]>> \in Reasons)
     [] e[1] = "text" -> Reasons = Of({"int", "float", "value", "variant", "type"})
     [] e[1] = "end" -> IF Was[i][2] = Names[e[3]] THEN out[1] = "ok"
                        ELSE out[1] = "err" /\ <<"mismatch", Was[i][2], Names[e[3]]>> \in Reasons
     [] e[1] = "drop" -> Reasons = Of({"missing", "int", "float", "value", "variant", "length", "start", "type"})
     [] e[1] = "twice" -> Reasons = Of({"duplicate", "length", "unsupported", "int", "float", "value"})
     [] e[1] = "cut" -> out[1] = "err" /\ (Len(out) = 2 => <<"eof">> \in Reasons)
     [] OTHER -> TRUE
PutNamed == One /\ Edit[1] = "put" /\ Junk[Edit[3]][1] \in {"pi", "decl", "sect", "open"} /\ out[1] = "err" =>
   <<"unsupported", IF Junk[Edit[3]][1] = "open" THEN <<"open", <<>>>> ELSE Junk[Edit[3]]>> \in Reasons
=============================================================================
