----------------------------- MODULE MC_BigDeser -----------------------------
(***************************************************************************)
(* Fragments that grow without bound, read as values whose closed form is  *)
(* given here.  TLC checks the closed form for small members against the   *)
(* specification, and prints large ones for execution.                     *)
(***************************************************************************)
EXTENDS SgmlDeser, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Prop == IOEnv.PROP

\* types and values
I8 == <<"int", "i8">>
I64 == <<"int", "i64">>
U64 == <<"int", "u64">>
Str == <<"str">>
Bool == <<"bool">>
AnyT == <<"any">>
F(n, x) == <<S(n), x, "req">>
D(n, x) == <<S(n), x, "def">>
Struct(fs) == <<"struct", fs>>
Opt(x) == <<"opt", x>>
Seq1(x) == <<"seq", x>>
Num(i) == <<"int", S(ToString(i))>>
Sv(s) == <<"str", S(s)>>
VStruct(vs) == <<"struct", vs>>
VSeq(vs) == <<"seq", vs>>
Some(v) == <<"some", v>>
Default == <<"default">>
None == <<"none">>
Ok1(v) == <<"ok", v>>

Fam(p, nm, doc, ty, out) == [p |-> p, name |-> nm, doc |-> doc, ty |-> ty, out |-> out]

Scalars(n, k) == CASE
      k = 1 -> Fam(<<"C20", "C25">>, "text in pieces", R(Many(T("a") \o T(" ") \o T(""), n)), Str, Ok1(<<"str", Many(S("a "), n)>>))
   [] k = 2 -> Fam(<<"C20">>, "text among child elements", R(Many(T("a") \o E("b", T("c")) \o E("d", Many(T("e"), 2)), n)), Str, Ok1(<<"str", Many(S("acee"), n)>>))
   [] k = 3 -> Fam(<<"C20">>, "text at depth", R(Many(O("b") \o C \o T("x"), n) \o Many(T("y") \o Z("b"), n)), Str, Ok1(<<"str", Many(S("x"), n) \o Many(S("y"), n)>>))
   [] k = 4 -> Fam(<<"C20">>, "long text", RA(<< <<"attr", S("a"), Many(S("v "), n)>> >>, E("b", Tq(Many(<<"u984c", "\n">>, n)))), Struct(<<F("b", Str), F("a", Str)>>),
       Ok1(VStruct(<<<<"str", Many(<<"u984c", "\n">>, n)>>, <<"str", Many(S("v "), n)>>>>)))
   [] k = 5 -> Fam(<<"C20">>, "zeros before a number", RA(<< <<"attr", S("a"), Many(S("0"), n) \o S("12")>> >>, E("b", Many(T("0"), n) \o T("7"))), Struct(<<F("a", I8), F("b", U64)>>),
       Ok1(VStruct(<<Num(12), Num(7)>>)))
   [] k = 6 -> Fam(<<"C20">>, "digits beyond any number", RA(<< <<"attr", S("a"), S("255") \o Many(S("9"), n + 30)>> >>, <<>>), Struct(<<F("a", I64)>>), Err)
   [] k = 7 -> Fam(<<"C20">>, "pieces beyond any number", R(T("-") \o Many(T("9"), n + 30)), I64, Err)
   [] k = 8 -> Fam(<<"C20">>, "a character in pieces", R(Many(T(""), n) \o T("x") \o Many(T(""), n)), <<"char">>, Ok1(<<"char", S("x")>>))
   [] k = 9 -> Fam(<<"C20">>, "too many characters", R(Many(T("x"), n + 1)), <<"char">>, Err)
   [] k = 10 -> Fam(<<"C20">>, "unit", R(Many(T("x"), n) \o Many(E("b", T("y")), n)), <<"unit">>, Ok1(<<"unit">>))
   [] k = 11 -> Fam(<<"C20", "C22">>, "nested options", RA(A("a", "5"), E("b", T("6"))), Struct(<<F("a", Nest(n % 40, I8, Opt)), F("b", Nest(n % 40, I8, LAMBDA x : <<"new", x>>))>>),
       Ok1(VStruct(<<Nest(n % 40, Num(5), Some), Nest(n % 40, Num(6), LAMBDA x : <<"new", x>>)>>)))

Bools(n, k) == CASE
      k = 1 -> Fam(<<"C21">>, "a boolean after many attributes", RA(Each(n, LAMBDA i : << <<"attr", Nm("k", i), S("no")>> >>) \o A0("b") \o A("c", "C"), <<>>),
       Struct(<<F("b", Bool), F("c", Bool)>>), Ok1(VStruct(<< <<"bool", TRUE>>, <<"bool", TRUE>> >>)))
   [] k = 2 -> Fam(<<"C21">>, "a long key", RA(<< <<"attr", Many(S("aB"), n), Many(S("Ab"), n)>>, <<"attr", S("b"), Many(S("b"), n + 1)>> >>, <<>>), Struct(<< <<Many(S("aB"), n), Bool, "req">> >>),
       Ok1(VStruct(<< <<"bool", TRUE>> >>)))
   [] k = 3 -> Fam(<<"C21">>, "more than its key", RA(<< <<"attr", S("b"), Many(S("b"), n + 1)>> >>, <<>>), Struct(<<F("b", Bool)>>), Err)
   [] k = 4 -> Fam(<<"C21">>, "a boolean in pieces", R(Many(T(""), n) \o T("T") \o Many(T(""), n) \o T("rUe") \o Many(T(""), n)), Bool, Ok1(<<"bool", TRUE>>))
   [] k = 5 -> Fam(<<"C21">>, "true too often", R(Many(T("1"), n + 1)), Bool, Err)
   [] k = 6 -> Fam(<<"C21", "C23">>, "many booleans", R(Many(E("b", T("0")) \o E("b", T("TRUE")), n)), Struct(<<F("b", Seq1(Bool))>>),
       Ok1(VStruct(<<VSeq(Many(<< <<"bool", FALSE>>, <<"bool", TRUE>> >>, n))>>)))
   [] k = 7 -> Fam(<<"C21">>, "a bad boolean after many", R(Many(E("b", T("0")), n) \o E("b", <<>>)), Struct(<<F("b", Seq1(Bool))>>), Err)

Unknown == EA("u", A("b", "9") \o A0("a"), T("z") \o E("a", T("8")) \o E("u", E("b", <<>>)))
Skip(n) == E("a", T("1")) \o Many(Unknown, n) \o E("b", T("2"))
Deep(n) == Many(O("u") \o A("b", "7") \o C, n) \o E("a", T("x")) \o Many(Z("u"), n)
AB == Struct(<<F("b", I8), F("a", Opt(I8)), D("c", I8)>>)
VAB == Ok1(VStruct(<<Num(2), Some(Num(1)), Default>>))
Chain(x) == Struct(<<D("a", I8), D("n", x)>>)
VChain(v) == VStruct(<<Num(3), v>>)
Structs(n, k) == CASE
      k = 1 -> Fam(<<"C22">>, "unknown attributes", RA(Each(n, LAMBDA i : << <<"attr", Nm("k", i), S("9")>> >>) \o A("a", "1") \o Each(n, LAMBDA i : << <<"attr0", Nm("K", i)>> >>) \o A("b", "2"), <<>>), AB, VAB)
   [] k = 2 -> Fam(<<"C22">>, "unknown elements", R(Skip(n)), AB, VAB)
   [] k = 3 -> Fam(<<"C22">>, "unknown elements after", R(E("b", T("2")) \o E("a", T("1")) \o Many(Unknown, n)), AB, VAB)
   [] k = 4 -> Fam(<<"C22", "C26">>, "a deep unknown element", R(E("a", T("1")) \o Deep(n) \o E("b", T("2"))), AB, VAB)
   [] k = 5 -> Fam(<<"C22">>, "an unknown element with its own name within", R(E("a", T("1")) \o Many(O("a1") \o C, n) \o Many(Z("a1") \o E("a1", <<>>), n - 1) \o Z("a1") \o E("b", T("2"))), AB, VAB)
   [] k = 6 -> Fam(<<"C22">>, "a wide unknown element", R(E("a", T("1")) \o E("u", Many(Unknown \o T("x"), n)) \o E("b", T("2"))), AB, VAB)
   [] k = 7 -> Fam(<<"C22">>, "an ignored field", R(E("a", T("1")) \o E("c", Many(Unknown, n) \o Deep(n)) \o E("b", T("2"))), Struct(<<F("a", I8), F("c", <<"ignored">>), F("b", I8)>>),
       Ok1(VStruct(<<Num(1), <<"unit">>, Num(2)>>)))
   [] k = 8 -> Fam(<<"C22">>, "twice, far apart", R(E("a", T("1")) \o Many(Unknown, n) \o E("a", T("1"))), AB, Err)
   [] k = 9 -> Fam(<<"C22">>, "an attribute again as an element", RA(A("b", "2"), Many(Unknown, n) \o E("b", T("2"))), AB, Err)
   [] k = 10 -> Fam(<<"C22">>, "an attribute twice, far apart", RA(A("b", "2") \o Many(A("x", "2"), n) \o A("b", "2"), <<>>), AB, Err)
   [] k = 11 -> Fam(<<"C22">>, "required and absent among many", R(E("a", T("1")) \o Many(Unknown, n)), AB, Err)
   [] k = 12 -> Fam(<<"C22">>, "many fields", RA(Each(n % 60, LAMBDA i : << <<"attr", Nm("a", i), S(ToString(i % 100))>> >>), Each(n % 60, LAMBDA i : En("e", i, T(ToString(i % 100))))),
       Struct(Each(n % 60, LAMBDA i : << <<Nm("e", i), I8, "req">>, <<Nm("a", i), I8, "req">> >>)), Ok1(VStruct(Each(n % 60, LAMBDA i : <<Num(i % 100), Num(i % 100)>>))))
   [] k = 13 -> Fam(<<"C22">>, "structs in structs", R(Nest(n % 50, <<>>, LAMBDA x : E("a", T("3")) \o E("n", x))), Nest(n % 50, Struct(<<D("a", I8)>>), Chain),
       Ok1(Nest(n % 50, VStruct(<<Default>>), VChain)))
   [] k = 14 -> Fam(<<"C22">>, "a map of attributes", RA(Each(n, LAMBDA i : << <<"attr", Nm("k", i), S(ToString(i))>> >>), <<>>), <<"map", I64>>, Ok1(<<"map", [i \in 1..n |-> <<Nm("k", i), Num(i)>>]>>))
   [] k = 15 -> Fam(<<"C22">>, "a map of elements", RA(A("a", "5"), Each(n, LAMBDA i : En("k", i, T(ToString(i))))), <<"map", I64>>, Ok1(<<"map", << <<S("a"), Num(5)>> >> \o [i \in 1..n |-> <<Nm("k", i), Num(i)>>]>>))
   [] k = 16 -> Fam(<<"C22">>, "a map with repeated keys", R(Many(E("a", T("1")) \o E("b", T("2")), n)), <<"map", I8>>, Ok1(<<"map", Many(<< <<S("a"), Num(1)>>, <<S("b"), Num(2)>> >>, n)>>))
   [] k = 17 -> Fam(<<"C22">>, "a map with a bad value late", R(Many(E("a", T("1")) \o E("b", T("2")), n) \o E("c", T("x"))), <<"map", I8>>, Err)
   [] k = 18 -> Fam(<<"C22">>, "maps in maps", R(Nest(n % 50, <<>>, LAMBDA x : E("m", x))), Nest(n % 50, <<"map", I8>>, LAMBDA x : <<"map", x>>), Ok1(Nest(n % 50, <<"map", <<>>>>, LAMBDA x : <<"map", << <<S("m"), x>> >>>>)))
   [] k = 19 -> Fam(<<"C22">>, "blanks among elements", R(Many(T(" ") \o T("\n"), n) \o E("a", T("1")) \o Many(T("\t"), n) \o E("b", T("2")) \o Many(T(" "), n)), AB, VAB)
   [] k = 20 -> Fam(<<"C22">>, "long names", << <<"open", Many(S("r"), n)>>, <<"close">>, <<"open", Many(S("ab"), n)>>, <<"close">> >> \o T("1") \o << <<"end", Many(S("ab"), n)>>, <<"open", Many(S("ab"), n) \o S("c")>>, <<"close">> >> \o T("2")
          \o << <<"end", Many(S("ab"), n) \o S("c")>>, <<"end", Many(S("r"), n)>> >>,
       Struct(<< <<Many(S("ab"), n) \o S("c"), I8, "req">>, <<Many(S("ab"), n), I8, "req">> >>), Ok1(VStruct(<<Num(2), Num(1)>>)))

Item == EA("i", A("a", "1"), E("b", T("2")))
ItemT == Struct(<<F("b", I8), F("a", I8)>>)
ItemV == VStruct(<<Num(2), Num(1)>>)
Seqs(n, k) == CASE
      k = 1 -> Fam(<<"C23">>, "items", R(Each(n, LAMBDA i : E("i", T(ToString(i)))) \o E("b", T("5"))), Struct(<<F("i", Seq1(I64)), F("b", I8)>>), Ok1(VStruct(<<VSeq([i \in 1..n |-> Num(i)]), Num(5)>>)))
   [] k = 2 -> Fam(<<"C23", "C22">>, "items that are structs", R(E("a", <<>>) \o Many(Item, n) \o E("b", T("5"))), Struct(<<F("b", I8), F("i", Seq1(ItemT))>>), Ok1(VStruct(<<Num(5), VSeq(Many(<<ItemV>>, n))>>)))
   [] k = 3 -> Fam(<<"C23">>, "items with blanks between", R(Many(T("\n ") \o E("i", T("1")) \o T("\n"), n)), Struct(<<F("i", Seq1(I8))>>), Ok1(VStruct(<<VSeq(Many(<<Num(1)>>, n))>>)))
   [] k = 4 -> Fam(<<"C23">>, "several sequences", R(Many(E("i", T("1")), n) \o Many(E("j", T("2")), n + 1) \o Many(E("k", T("3")), n)), Struct(<<F("k", Seq1(I8)), F("i", Seq1(I8)), F("j", Seq1(I8))>>),
       Ok1(VStruct(<<VSeq(Many(<<Num(3)>>, n)), VSeq(Many(<<Num(1)>>, n)), VSeq(Many(<<Num(2)>>, n + 1))>>)))
   [] k = 5 -> Fam(<<"C23">>, "an interrupted sequence", R(Many(E("i", T("1")), n) \o E("j", <<>>) \o E("i", T("1"))), Struct(<<F("i", Seq1(I8))>>), Err)
   [] k = 6 -> Fam(<<"C23">>, "a bad item late", R(Many(E("i", T("1")), n) \o E("i", T("x"))), Struct(<<F("i", Seq1(I8))>>), Err)
   [] k = 7 -> Fam(<<"C23">>, "an item too few", R(Many(E("i", T("1")), (n % 30) + 1)), Struct(<<F("i", <<"tuple", Many(<<I8>>, (n % 30) + 2)>>)>>), Err)
   [] k = 8 -> Fam(<<"C23">>, "an item too many", R(Many(E("i", T("1")), (n % 30) + 2)), Struct(<<F("i", <<"tuple", Many(<<I8>>, (n % 30) + 1)>>)>>), Err)
   [] k = 9 -> Fam(<<"C23">>, "a tuple of many", R(Many(E("i", T("1")), (n % 30) + 2) \o E("a", T("4"))), Struct(<<F("i", <<"tuple", Many(<<I8, Str>>, (n % 30) \div 2 + 1) \o Many(<<I8>>, n % 2)>>), F("a", I8)>>),
       Ok1(VStruct(<< <<"tuple", Many(<<Num(1), Sv("1")>>, (n % 30) \div 2 + 1) \o Many(<<Num(1)>>, n % 2)>>, Num(4)>>)))
   [] k = 10 -> Fam(<<"C23">>, "sequences in structs in sequences", R(Many(E("o", Many(E("i", T("1")), 3) \o E("z", T("2"))) \o E("o", <<>>), n)), Struct(<<F("o", Seq1(Struct(<<D("i", Seq1(I8)), D("z", I8)>>)))>>),
       Ok1(VStruct(<<VSeq(Many(<<VStruct(<<VSeq(Many(<<Num(1)>>, 3)), Num(2)>>), VStruct(<<Default, Default>>)>>, n))>>)))
   [] k = 11 -> Fam(<<"C23">>, "one item with much", R(E("i", Many(Item, n)) \o E("i", <<>>)), Struct(<<F("i", Seq1(Struct(<<D("i", Seq1(ItemT))>>)))>>),
       Ok1(VStruct(<<VSeq(<<VStruct(<<VSeq(Many(<<ItemV>>, n))>>), VStruct(<<Default>>)>>)>>)))
   [] k = 12 -> Fam(<<"C23">>, "items that may be anything", R(Many(E("i", T("x")) \o E("i", <<>>) \o EA("i", A("a", "b"), <<>>), n)), Struct(<<F("i", Seq1(AnyT))>>),
       Ok1(VStruct(<<VSeq(Many(<<Sv("x"), <<"unit">>, <<"map", << <<S("a"), Sv("b")>>, <<Dollar, Sv("")>> >>>>>>, n))>>)))
   [] k = 13 -> Fam(<<"C23">>, "a sequence after many others", R(Many(Unknown, n) \o Many(E("i", T("1")), n) \o Many(Unknown, n)), Struct(<<F("i", Seq1(I8))>>), Ok1(VStruct(<<VSeq(Many(<<Num(1)>>, n))>>)))
   [] k = 14 -> Fam(<<"C23", "C26">>, "a sequence from an attribute", RA(A("i", "1") \o Many(A("x", "2"), n), Many(E("i", T("1")), n)), Struct(<<F("i", Seq1(I8))>>), Err)

Vs == << <<S("p"), "unit">>, <<S("q"), "newtype", I8>>, <<S("s"), "struct", <<F("a", I8)>>>>, <<S("t"), "newtype", Seq1(I8)>>, <<S("w"), "tuple", <<I8, Str>>>> >>
Enum == <<"enum", Vs>>
Choice4 == E("e", E("q", T("1"))) \o E("e", T("p")) \o E("e", EA("s", A("a", "2"), <<>>)) \o E("e", E("w", T("3")) \o E("w", T("4")))
Chosen == << <<"var", S("q"), Num(1)>>, <<"var", S("p"), <<"unit">>>>, <<"var", S("s"), VStruct(<<Num(2)>>)>>, <<"var", S("w"), <<"tuple", <<Num(3), Sv("4")>>>>>> >>
ManyVs(n) == <<"enum", Each(n, LAMBDA i : << <<Nm("v", i), "unit">> >>)>>
Enums(n, k) == CASE
      k = 1 -> Fam(<<"C24", "C23">>, "many choices", R(Many(Choice4, n) \o E("z", T("5"))), Struct(<<F("z", I8), F("e", Seq1(Enum))>>), Ok1(VStruct(<<Num(5), VSeq(Many(Chosen, n))>>)))
   [] k = 2 -> Fam(<<"C24", "C25">>, "choices as content", R(Many(E("q", T("1")) \o E("p", <<>>) \o EA("s", A("a", "2"), <<>>), n)), Struct(<< <<Dollar, Seq1(Enum), "req">> >>),
       Ok1(VStruct(<<VSeq(Many(<<Chosen[1], Chosen[2], Chosen[3]>>, n))>>)))
   [] k = 3 -> Fam(<<"C24">>, "a choice with many items", R(E("e", E("t", Many(E("x", T("1")) \o E("y", T("2")), n))) \o E("z", T("5"))), Struct(<<F("z", I8), F("e", Enum)>>),
       Ok1(VStruct(<<Num(5), <<"var", S("t"), VSeq(Many(<<Num(1), Num(2)>>, n))>>>>)))
   [] k = 4 -> Fam(<<"C24">>, "a bad choice late", R(Many(Choice4, n) \o E("e", E("x", <<>>))), Struct(<<F("e", Seq1(Enum))>>), Err)
   [] k = 5 -> Fam(<<"C24">>, "many variants", R(E("e", T("v") \o T(ToString((n % 300) + 1))) \o E("e", En("v", 1, <<>>))), Struct(<<F("e", Seq1(ManyVs((n % 300) + 1)))>>),
       Ok1(VStruct(<<VSeq(<< <<"var", Nm("v", (n % 300) + 1), <<"unit">>>>, <<"var", S("v1"), <<"unit">>>> >>)>>)))
   [] k = 6 -> Fam(<<"C24">>, "no such variant", R(E("e", T("v") \o T(ToString((n % 300) + 2)))), Struct(<<F("e", ManyVs((n % 300) + 1))>>), Err)
   [] k = 7 -> Fam(<<"C24">>, "a long variant", R(E("e", Tq(Many(S("ab"), n))) \o E("e", << <<"open", Many(S("ab"), n) \o S("c")>>, <<"close">> >> \o T("2") \o << <<"end", Many(S("ab"), n) \o S("c")>> >>)),
       Struct(<<F("e", Seq1(<<"enum", << <<Many(S("ab"), n), "unit">>, <<Many(S("ab"), n) \o S("c"), "newtype", I8>> >>>>))>>),
       Ok1(VStruct(<<VSeq(<< <<"var", Many(S("ab"), n), <<"unit">>>>, <<"var", Many(S("ab"), n) \o S("c"), Num(2)>> >>)>>)))
   [] k = 8 -> Fam(<<"C24">>, "text in pieces selects", R(E("e", Many(T("a") \o T("b"), n)) \o E("f", T("1"))), Struct(<<F("e", <<"enum", << <<Many(S("ab"), n), "unit">> >>>>), F("f", I8)>>),
       Ok1(VStruct(<< <<"var", Many(S("ab"), n), <<"unit">>>>, Num(1)>>)))
   [] k = 9 -> Fam(<<"C24">>, "a choice far from the next", R(Many(Unknown, n) \o E("e", EA("s", Many(A("x", "y"), n) \o A("a", "2"), Many(Unknown, n))) \o Many(Unknown, n) \o E("z", T("5"))), Struct(<<F("e", Enum), F("z", I8)>>),
       Ok1(VStruct(<<Chosen[3], Num(5)>>)))

Wrap(x, y) == Struct(<< <<Dollar, x, "req">>, F("a", y)>>)
Contents(n, k) == CASE
      k = 1 -> Fam(<<"C25">>, "content in pieces", RA(Many(A("x", "2"), n) \o A("a", "3"), Many(T("x ") \o T("y"), n)), Wrap(Str, I8), Ok1(VStruct(<< <<"str", Many(S("x y"), n)>>, Num(3)>>)))
   [] k = 2 -> Fam(<<"C25">>, "a number as content", RA(A("a", "3"), Many(T("0"), n) \o T("4")), Wrap(Opt(I8), Str), Ok1(VStruct(<<Some(Num(4)), Sv("3")>>)))
   [] k = 3 -> Fam(<<"C25">>, "elements as content", RA(A("a", "3"), Many(E("x", T("1")) \o E("y", T("2")) \o E("a", T("4")), n)), Wrap(Seq1(I8), I8), Ok1(VStruct(<<VSeq(Many(<<Num(1), Num(2), Num(4)>>, n)), Num(3)>>)))
   [] k = 4 -> Fam(<<"C25">>, "content in every item", R(Many(EA("i", A("a", "1"), Many(T("x"), 3)), n)), Struct(<<F("i", Seq1(Wrap(Str, Bool)))>>), Ok1(VStruct(<<VSeq(Many(<<VStruct(<<Sv("xxx"), <<"bool", TRUE>>>>)>>, n))>>)))
   [] k = 5 -> Fam(<<"C25">>, "wrappers in wrappers", R(Nest(n % 40, T("7"), LAMBDA x : E("n", x))), Nest(n % 40, Struct(<< <<Dollar, I8, "req">> >>), LAMBDA x : Struct(<< <<Dollar, x, "req">> >>)),
       Ok1(Nest(n % 40, VStruct(<<Num(7)>>), LAMBDA x : VStruct(<<x>>))))
   [] k = 6 -> Fam(<<"C25">>, "anything", RA(Each(n, LAMBDA i : << <<"attr", Nm("k", i), S("v")>> >>), Many(T("x"), n)), AnyT, Ok1(<<"map", [i \in 1..n |-> <<Nm("k", i), Sv("v")>>] \o << <<Dollar, <<"str", Many(S("x"), n)>>>> >>>>))
   [] k = 7 -> Fam(<<"C25">>, "anything with elements", R(Many(E("x", T("1")) \o E("y", <<>>), n)), AnyT, Ok1(<<"map", Many(<< <<S("x"), Sv("1")>>, <<S("y"), <<"unit">>>> >>, n)>>))

Bad(n, k) == CASE
      k = 1 -> Fam(<<"C26">>, "unclosed", Many(O("r") \o C, n), Struct(<<D("r", I8)>>), Err)
   [] k = 2 -> Fam(<<"C26">>, "unclosed within", R(E("a", T("1")) \o Many(O("u") \o C, n)), AB, Err)
   [] k = 3 -> Fam(<<"C26">>, "an instruction within text", R(Many(T("x"), n) \o << <<"pi", S("<?p>")>> >> \o T("x")), Str, Err)
   [] k = 4 -> Fam(<<"C26">>, "a section among fields", R(Many(Unknown, n) \o E("b", T("2")) \o << <<"sect", S("CDATA"), S("x")>> >>), AB, Err)
   [] k = 5 -> Fam(<<"C26">>, "a section after items", R(Many(E("i", T("1")), n) \o << <<"sect", S("CDATA"), S("x")>> >>), Struct(<<F("i", Seq1(I8))>>), Err)
   [] k = 6 -> Fam(<<"C26">>, "a mismatched end", R(Many(O("u") \o C, n) \o Many(Z("u"), n - 1) \o Z("U") \o E("b", T("2"))), AB, Err)
   [] k = 7 -> Fam(<<"C26">>, "an end too many", R(Many(O("b") \o C, n) \o T("1") \o Many(Z("b"), n + 1)), Str, Err)
   [] k = 8 -> Fam(<<"C26">>, "ends early", O("r") \o Many(A("x", "1"), n), Struct(<<F("a", I8)>>), Err)
   [] k = 9 -> Fam(<<"C26">>, "only ends", Many(Z("r"), n), I8, Err)
   [] k = 10 -> Fam(<<"C26">>, "only text", Many(T("1"), n), AnyT, Err)
Groups == <<11, 7, 20, 14, 9, 7, 10>>     \* how many families there are in each group
Family(g, k, n) ==
   CASE g = 1 -> Scalars(n, k)
     [] g = 2 -> Bools(n, k)
     [] g = 3 -> Structs(n, k)
     [] g = 4 -> Seqs(n, k)
     [] g = 5 -> Enums(n, k)
     [] g = 6 -> Contents(n, k)
     [] g = 7 -> Bad(n, k)

Mine(f) == Prop = "all" \/ \E k \in 1..Len(f.p) : f.p[k] = Prop
Chosen1 == {gk \in UNION {{<<g, k>> : k \in 1..Groups[g]} : g \in 1..Len(Groups)} : Mine(Family(gk[1], gk[2], 1))}
Sizes == 1..4 \cup {7, 17, 33, 65, 129, 300, Depth}

VARIABLES fam, n, read, doc, ty, out
vars == <<fam, n, read, doc, ty, out>>
Init == fam \in Chosen1 /\ n \in Sizes /\ read = FALSE /\ doc = <<>> /\ ty = <<>> /\ out = <<>>
Read == ~read /\ read' = TRUE /\ UNCHANGED <<fam, n>>
        /\ LET f == Family(fam[1], fam[2], n) IN doc' = f.doc /\ ty' = f.ty /\ out' = f.out
Spec == Init /\ [][Read]_vars
\* the closed form is what the specification says
ClosedForm == read /\ n <= 4 => (Outcome(doc, ty) = out \/ Outcome(doc, ty) = <<"any">>)
Settled == read /\ n <= 4 => Outcome(doc, ty)[1] # "any"
Report == read => PrintT(ToJson(<<doc, ty, out>>))
ASSUME PrintT(ToJson([types |-> <<>>]))
Alias == [name |-> Family(fam[1], fam[2], 1).name, n |-> n, got |-> IF read /\ n <= 4 THEN Outcome(doc, ty) ELSE <<>>, want |-> out]
=============================================================================
