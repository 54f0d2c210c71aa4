---------------------------- MODULE MC_BigPipeline ----------------------------
(***************************************************************************)
(* C27: documents that grow without bound, each with the fragment of its   *)
(* canonical spelling, read as values given in closed form.  TLC checks    *)
(* both for small members.                                                 *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlNormalize, SgmlDeser, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Cfg == [DefaultCfg EXCEPT !.names = "lower", !.sect = "all", !.ignD = TRUE, !.ignP = TRUE, !.ents = << <<S("lt"), S("<")>>, <<S("one"), S("1")>> >>, !.pents = << <<S("cd"), S("CDATA")>>, <<S("in"), S("INCLUDE")>> >>]

I8 == <<"int", "i8">>
Str == <<"str">>
Bool == <<"bool">>
FF(n, x) == <<S(n), x, "req">>
DD(n, x) == <<S(n), x, "def">>
Struct(fs) == <<"struct", fs>>
Opt1(x) == <<"opt", x>>
Row(x) == <<"seq", x>>
Num(i) == <<"int", S(ToString(i))>>
Sv(s) == <<"str", S(s)>>
VS(vs) == <<"struct", vs>>
VR(vs) == <<"seq", vs>>
Got(v) == <<"ok", v>>
One(x) == <<x>>

Doc(nm, src, can, ty, v) == [name |-> nm, src |-> src, can |-> can, ty |-> ty, out |-> Got(v)]
As == Struct(<<FF("a", Row(I8))>>)
Bs == Struct(<<DD("x", I8), DD("b", Row(Str))>>)
L(s) == S(s)
Item(x) == E("a", T(x))
N == 32
Family(k, n) ==
   CASE k = 1 -> Doc("omitted end tags", L("<r>") \o Many(L("<a>1"), n) \o L("</r>"), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 2 -> Doc("omitted end tags and blanks", L("<R>\n") \o Many(L("<A\n> &#49;\n\t"), n) \o L("</R >"), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 3 -> Doc("every second end tag omitted", L("<r>") \o Many(L("<a>1<A>2</a>"), n) \o L("</r>"), R(Many(Item("1") \o Item("2"), n)), As, VS(<<VR(Many(<<Num(1), Num(2)>>, n))>>))
     [] k = 4 -> Doc("every spelling of names", L("<r>") \o Many(L("<a>1</A><A>2</a>"), n) \o L("</R>"), R(Many(Item("1") \o Item("2"), n)), As, VS(<<VR(Many(<<Num(1), Num(2)>>, n))>>))
     [] k = 5 -> Doc("comments", Many(L("<!-- <a> -->"), n) \o L("<r>") \o Many(L("<!-- x --><a>1<!----></a><!-- -- -- -->"), n) \o L("</r>") \o Many(L("<!-- -->\n"), n), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 6 -> Doc("instructions", Many(L("<?p>"), n) \o L("<r>") \o Many(L("<?q '><a>1<?></a>"), n) \o L("</r>"), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 7 -> Doc("declarations", Many(L("<!E x \"<r>\" -- > -->\n"), n) \o L("<!DOCTYPE r [") \o Many(L("<!ENTITY e '>'> "), n) \o L("]><r><a>1</a></r>"), R(Item("1")), As, VS(<<VR(One(Num(1)))>>))
     [] k = 8 -> Doc("INCLUDE sections", L("<r>") \o Many(L("<![ INCLUDE [<a>1</a>]]><![%in;[<a>2</a>]]>"), n) \o L("</r>"), R(Many(Item("1") \o Item("2"), n)), As, VS(<<VR(Many(<<Num(1), Num(2)>>, n))>>))
     [] k = 9 -> Doc("a long INCLUDE section", L("<r><![include[") \o Many(L("<a>1</a>"), n) \o L("]]><a>2</a></r>"), R(Many(Item("1"), n) \o Item("2")), As, VS(<<VR(Many(One(Num(1)), n) \o One(Num(2)))>>))
     [] k = 10 -> Doc("IGNORE sections", L("<r>") \o Many(L("<![IGNORE[<a>3<![ [ ]]>]]><a>1</a>"), n) \o L("</r>"), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 11 -> Doc("a long IGNORE section", L("<r><![IGNORE[") \o Many(L("<a>3</a>"), n) \o L("]]><a>1</a></r>"), R(Item("1")), As, VS(<<VR(One(Num(1)))>>))
     [] k = 12 -> Doc("CDATA sections", L("<r><b>") \o Many(L("<![CDATA[<]]>"), n) \o L("</b></r>"), R(E("b", Many(T("<"), n))), Bs, VS(<<<<"default">>, VR(One(<<"str", Many(L("<"), n)>>))>>))
     [] k = 13 -> Doc("a long CDATA section", L("<r><b><![") \o Many(L(" %cd;"), n) \o L("[") \o Many(L("&lt;]] >"), n) \o L("]]></b></r>"), R(E("b", Tq(Many(L("&lt;]] >"), n)))), Bs, VS(<<<<"default">>, VR(One(<<"str", Many(L("&lt;]] >"), n)>>))>>))
     [] k = 14 -> Doc("character references", L("<r><b>") \o Many(L("&#60;&lt;&#x41;"), n) \o L("</b></r>"), R(E("b", Tq(Many(L("<<A"), n)))), Bs, VS(<<<<"default">>, VR(One(<<"str", Many(L("<<A"), n)>>))>>))
     [] k = 15 -> Doc("references in attributes", L("<r>") \o Many(L("<b x='&one;&#50;'></b><b/>"), n) \o L("</r>"), R(Many(EA("b", A("x", "12"), <<>>) \o E("b", <<>>), n)), Struct(<<FF("b", Row(Struct(<<DD("x", I8)>>)))>>),
             VS(<<VR(Many(<<VS(<<Num(12)>>), VS(<< <<"default">> >>)>>, n))>>))
     [] k = 16 -> Doc("pieces of text", L("<r><b>") \o Many(L("x<![CDATA[]]> &#121; <!-- -->"), n) \o L("</b></r>"), R(E("b", Many(T("x") \o T("y"), n))), Bs, VS(<<<<"default">>, VR(One(<<"str", Many(L("xy"), n)>>))>>))
     [] k = 17 -> Doc("many attributes", L("<r") \o Many(L(" Y=z"), n) \o L(" X=7>") \o L("</r>"), RA(Many(A("y", "z"), n) \o A("x", "7"), <<>>), Struct(<<DD("x", I8)>>), VS(<<Num(7)>>))
     [] k = 18 -> Doc("a long value", L("<r><b x=\"") \o Many(L("&#49; '"), n) \o L("\"></r>"), R(EA("b", << <<"attr", S("x"), Many(L("1 '"), n)>> >>, <<>>)), Struct(<<FF("b", Struct(<<FF("x", Str)>>))>>), VS(<<VS(<< <<"str", Many(L("1 '"), n)>> >>)>>))
     [] k = 19 -> Doc("XML closings", L("<r>") \o Many(L("<b/><B X=1\n/><b on/>"), n) \o L("</r>"), R(Many(E("b", <<>>) \o EA("b", A("x", "1"), <<>>) \o EA("b", A0("on"), <<>>), n)), Struct(<<FF("b", Row(Struct(<<DD("x", I8), DD("on", Bool)>>)))>>),
             VS(<<VR(Many(<<VS(<< <<"default">>, <<"default">> >>), VS(<<Num(1), <<"default">> >>), VS(<< <<"default">>, <<"bool", TRUE>> >>)>>, n))>>))
     [] k = 20 -> Doc("long blanks in tags", L("<r") \o Many(<<"\n">>, n) \o L("x") \o Many(L(" "), n) \o L("=") \o Many(<<"\t">>, n) \o L("1") \o Many(L(" "), n) \o L("></r") \o Many(L(" "), n) \o L(">"), RA(A("x", "1"), <<>>), Struct(<<DD("x", I8)>>), VS(<<Num(1)>>))
     [] k = 21 -> Doc("blanks around everything", Many(<<"\n">>, n) \o L("<r>") \o Many(L(" "), n) \o L("<a>") \o Many(L(" "), n) \o L("1") \o Many(<<"\t">>, n) \o L("</a>") \o Many(<<"\n">>, n) \o L("</r>") \o Many(L(" "), n), R(Item("1")), As, VS(<<VR(One(Num(1)))>>))
     [] k = 22 -> Doc("unknown elements before", L("<r>") \o Many(L("<u><V>x</u>"), n) \o Many(L("<a>1"), n) \o L("</r>"), R(Many(E("u", E("v", T("x"))), n) \o Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 23 -> Doc("deep unknown elements", L("<r>") \o Many(L("<U>"), n) \o Many(L("</u>"), n) \o L("<a>1</r>"), R(Nest(n, <<>>, LAMBDA x : E("u", x)) \o Item("1")), As, VS(<<VR(One(Num(1)))>>))
     [] k = 24 -> Doc("a long number", L("<r><a>") \o Many(L("&#48;"), n) \o L("7</a></r>"), R(E("a", Tq(Many(L("0"), n) \o L("7")))), As, VS(<<VR(One(Num(7)))>>))
     [] k = 25 -> Doc("a choice of items", L("<r>") \o Many(L("<A>x<b X=1></b>"), n) \o L("</r>"), R(Many(E("a", T("x")) \o EA("b", A("x", "1"), <<>>), n)),
             Struct(<<FF("$value", Row(<<"enum", << <<S("a"), "newtype", Str>>, <<S("b"), "struct", <<DD("x", I8)>>>> >>>>))>>), VS(<<VR(Many(<< <<"var", S("a"), Sv("x")>>, <<"var", S("b"), VS(<<Num(1)>>)>> >>, n))>>))
     [] k = 26 -> Doc("items of items", L("<r>") \o Many(L("<l><a>1<a>2</l>"), n) \o L("</r>"), R(Many(E("l", Item("1") \o Item("2")), n)), Struct(<<FF("l", Row(As))>>), VS(<<VR(Many(<<VS(<<VR(<<Num(1), Num(2)>>)>>)>>, n))>>))
     [] k = 27 -> Doc("an optional item late", L("<r>") \o Many(L("<u/>"), n) \o L("<B>x</r>"), R(Many(E("u", <<>>), n) \o E("b", T("x"))), Struct(<<DD("a", Opt1(I8)), DD("b", Opt1(Str))>>), VS(<< <<"default">>, <<"some", Sv("x")>> >>))
     [] k = 28 -> Doc("long names", L("<r><A") \o Many(L("bC"), n) \o L(">1</a") \o Many(L("Bc"), n) \o L("></r>"), R(<< <<"open", L("a") \o Many(L("bc"), n)>>, <<"close">> >> \o T("1") \o << <<"end", L("a") \o Many(L("bc"), n)>> >>), Struct(<< <<L("a") \o Many(L("bc"), n), I8, "req">> >>), VS(<<Num(1)>>))
     [] k = 29 -> Doc("RCDATA sections", L("<r>") \o Many(L("<b><![RCDATA[<a>&one;]]>"), n) \o L("</r>"), R(Many(E("b", T("<a>1")), n)), Bs, VS(<< <<"default">>, VR(Many(One(Sv("<a>1")), n))>>))
     [] k = 30 -> Doc("sections within a section", L("<r>") \o Many(L("<![TEMP[<a>1<![IGNORE[x]]></a><![CDATA[]]>]]>"), n) \o L("</r>"), R(Many(Item("1"), n)), As, VS(<<VR(Many(One(Num(1)), n))>>))
     [] k = 31 -> Doc("values of elements and attributes", L("<r X=3>") \o Many(L("<b>x</b>"), n) \o L("</r>"), RA(A("x", "3"), Many(E("b", T("x")), n)), Bs, VS(<<Num(3), VR(Many(One(Sv("x")), n))>>))
     [] k = 32 -> Doc("text only", L("<r>") \o Many(L("x&lt; "), n) \o L("</r>"), R(Tq(Many(L("x< "), n - 1) \o L("x<"))), Str, <<"str", Many(L("x< "), n - 1) \o L("x<")>>)

VARIABLES fam, n, got
vars == <<fam, n, got>>
Sizes == 1..3 \cup {7, 17, 65, 300, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ got = <<>>
Make == got = <<>> /\ got' = Family(fam, n) /\ UNCHANGED <<fam, n>>
Spec == Init /\ [][Make]_vars
Small == got # <<>> /\ n <= 7
ClosedForm == Small => Outcome(got.can, got.ty) = got.out
Equivalent == Small => LET p == Parse(got.src, Cfg)
                           r == Normalize(p.out)
                       IN POk(p) /\ r[1] /\ Outcome(r[2], got.ty) = got.out
CanonicalStays == Small => IsBalanced(got.can)
Report == got # <<>> => PrintT(ToJson(<<got.src, got.can, got.ty, got.out>>))
ASSUME PrintT(ToJson([types |-> <<>>, cfg |-> Cfg]))
Alias == [name |-> Family(fam, 1).name, n |-> n, can |-> IF Small THEN Outcome(got.can, got.ty) ELSE <<>>, want |-> IF Small THEN got.out ELSE <<>>,
          read |-> IF Small THEN LET p == Parse(got.src, Cfg) IN IF POk(p) THEN Normalize(p.out) ELSE <<p>> ELSE <<>>]
=============================================================================
