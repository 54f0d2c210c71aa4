----------------------------- MODULE MC_BigRender -----------------------------
(***************************************************************************)
(* C15: fragments that grow without bound, and what reading their markup   *)
(* back gives in closed form, which TLC checks for small members.          *)
(***************************************************************************)
EXTENDS SgmlRender, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)

Same == <<>>
Fam(nm, ev, canon) == [name |-> nm, ev |-> ev, canon |-> IF canon = Same THEN ev ELSE canon]
At1(k, v) == << <<"attr", S(k), v>> >>
D(k, b) == << <<"decl", S(k), S(b)>> >>
Pi(s) == << <<"pi", S(s)>> >>
Sect(k, b) == << <<"sect", S(k), S(b)>> >>
I(n) == O(n) \o C
Odd == <<"u984c", "ue9", "\n", "\t">>
Quotes == S("\"'")
Refs == S("&#34;&lt;&")
\* sections within sections are read recursively (a known finding of C01)
Deep(n) == IF n < 300 THEN n ELSE 300
N == 33
Family(k, n) ==
   CASE k = 1 -> Fam("many attributes", RA(Many(A("k", "v") \o A0("a") \o A("b", ""), n), T("x")), Same)
     [] k = 2 -> Fam("many quoted attributes", RA(Many(A("k", "it's") \o A("l", "\"q\"") \o A("m", "'\""), n), <<>>), Same)
     [] k = 3 -> Fam("a long value", RA(At1("k", Many(S("v w>"), n)), <<>>), Same)
     [] k = 4 -> Fam("a long value with quotes", RA(At1("k", Many(Quotes, n)) \o At1("l", Many(S("'"), n)) \o At1("m", Many(S("\""), n)), <<>>), Same)
     [] k = 5 -> Fam("a long value with a quote at its end", RA(At1("k", Many(S("v"), n) \o S("\"")) \o At1("l", Many(S("v"), n) \o S("'")) \o At1("m", S("'") \o Many(S("v"), n) \o S("\"")), <<>>), Same)
     [] k = 6 -> Fam("a long value with references", RA(At1("k", Many(Refs, n)) \o At1("l", Many(S("&"), n)) \o At1("m", S("\"") \o Many(S("&#"), n)), <<>>), Same)
     [] k = 7 -> Fam("a long value of odd characters", RA(At1("k", Many(Odd, n)) \o A0("k"), <<>>), Same)
     [] k = 8 -> Fam("a long text", R(Tq(Many(S("x &<>"), n))), Same)
     [] k = 9 -> Fam("a long text with one mark", R(Tq(Many(S("x"), n) \o S("<"))), Same)
     [] k = 10 -> Fam("a long text of references", R(Tq(Many(S("&#60;&lt;"), n))), Same)
     [] k = 11 -> Fam("a long text of marks", R(Tq(Many(S("<"), n)) \o E("b", Tq(Many(S("&"), n))) \o E("b", Tq(Many(S(">"), n)))), Same)
     [] k = 12 -> Fam("a long text of odd characters", R(Tq(Many(Odd, n))), Same)
     [] k = 13 -> Fam("a long blank text", R(Tq(Many(S(" "), n)) \o E("b", Tq(Many(<<"\n">>, n))) \o Tq(Many(<<"\t">>, n))), Same)
     [] k = 14 -> Fam("many texts", R(Many(T("a") \o T("<") \o T(""), n)), R(Tq(Many(S("a<"), n))))
     [] k = 15 -> Fam("many empty texts", Many(T(""), n) \o R(Many(T(""), n)) \o Many(T(""), n), R(<<>>))
     [] k = 16 -> Fam("many blanks before the content", Many(T(" ") \o T("\n"), n) \o R(T("x")) \o Many(T(" "), n), R(T("x")) \o Tq(Many(S(" "), n)))
     [] k = 17 -> Fam("blanks between declarations", Many(T(" ") \o D("X", "y") \o T("\n"), n) \o R(T("x")), Many(D("X", "y"), n) \o R(T("x")))
     [] k = 18 -> Fam("a long prolog", Many(D("DOCTYPE", "a [ <!ENTITY b \"c\"> ]") \o Pi("<?p q>") \o Sect("IGNORE", "x"), n) \o R(<<>>), Same)
     [] k = 19 -> Fam("a long declaration", << <<"decl", S("D"), S("[") \o Many(S("<!E '>' -- > -->"), n) \o S("]")>> >> \o R(<<>>), Same)
     [] k = 20 -> Fam("a declaration with a long keyword", << <<"decl", Many(S("aB"), n), <<>>>>, <<"decl", Many(S("c-"), n), S("x")>> >> \o R(<<>>), Same)
     [] k = 21 -> Fam("a long instruction", << <<"pi", S("<?") \o Many(S("p '<q"), n) \o S(">")>> >> \o R(<< <<"pi", S("<?") \o Many(S("?"), n) \o S(">")>> >>), Same)
     [] k = 22 -> Fam("many instructions", R(Many(Pi("<?p>") \o T("x") \o Pi("<?>"), n)), Same)
     [] k = 23 -> Fam("a long section", R(<< <<"sect", S("CDATA"), Many(S("<&]"), n)>>, <<"sect", S("RCDATA"), Many(S("&#60;] >"), n)>> >>), Same)
     [] k = 24 -> Fam("many sections", R(Many(Sect("CDATA", "x]]") \o Sect("IGNORE", "<![[]]>") \o Sect("", "y"), n)), Same)
     [] k = 25 -> Fam("a section of sections", R(<< <<"sect", S("INCLUDE"), Many(S("<![CDATA[x]]> "), n)>>, <<"sect", <<>>, Many(S("<![["), Deep(n)) \o S("x") \o Many(S("]]>"), Deep(n))>> >>), Same)
     [] k = 26 -> Fam("long keywords of a section", R(<< <<"sect", Many(S(" "), n) \o S("CDATA") \o Many(S(" TEMP"), n) \o Many(<<"\n">>, n), S("<")>> >>), R(<< <<"sect", S("CDATA") \o Many(S(" TEMP"), n), S("<")>> >>))
     [] k = 27 -> Fam("nested elements", Many(I("b") \o T("x"), n) \o Many(Z("b") \o T("y"), n), Same)
     [] k = 28 -> Fam("elements one after another", R(Many(E("b", <<>>) \o EA("c", A("k", "v"), T("x")) \o O("d") \o X, n)), Same)
     [] k = 29 -> Fam("empty tags", Many(<< <<"open", <<>>>>, <<"close">> >>, n) \o T("x") \o Many(<< <<"end", <<>>>> >>, n), Same)
     [] k = 30 -> Fam("long names", << <<"open", Many(S("a-B."), n)>>, <<"attr", Many(S("cD"), n), S("e")>>, <<"attr0", Many(S("f"), n)>>, <<"close">>, <<"end", Many(S("a-B."), n)>> >>, Same)
     [] k = 31 -> Fam("each its own name", Each(n, LAMBDA i : << <<"open", Nm("e", i)>>, <<"attr", Nm("k", i), Nm("v", i)>>, <<"close">>, <<"end", Nm("e", i)>> >>), Same)
     [] k = 32 -> Fam("only text", Tq(Many(S("x y "), n)), Same)
     [] k = 33 -> Fam("XML closings", I("r") \o Many(O("b") \o A0("k") \o X \o T("x"), n) \o Z("r"), Same)

VARIABLES fam, n, got
vars == <<fam, n, got>>
\* the small ones are written and read here; MC_BigRender is run up to a small depth to record what the code writes, too
Sizes == 1..3 \cup {17, 65, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ got = <<>>
Make == got = <<>> /\ got' = Family(fam, n) /\ UNCHANGED <<fam, n>>
Spec == Init /\ [][Make]_vars
Small == got # <<>> /\ n <= 17
Proper == Small => Writable(got.ev)
ClosedForm == Small => Canon(got.ev) = got.canon
RoundTrip == Small => ReadsBack(Write(got.ev), got.ev, DefaultCfg)
Report == got # <<>> => PrintT(ToJson(<<got.ev, got.canon>>))
ASSUME PrintT(ToJson([groups |-> <<>>]))
Alias == [name |-> Family(fam, 1).name, n |-> n, canon |-> IF Small THEN Canon(got.ev) ELSE <<>>, want |-> IF Small THEN got.canon ELSE <<>>]
=============================================================================
