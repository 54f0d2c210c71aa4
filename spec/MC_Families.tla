----------------------------- MODULE MC_Families -----------------------------
(***************************************************************************)
(* Families of documents.  TLC checks the closed form of the outcome       *)
(* against the parser for small n; the driver executes large members and   *)
(* compares with the closed form, each in a process of its own.            *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlFamily, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)

All == [DefaultCfg EXCEPT !.sect = "all"]
Raw == [DefaultCfg EXCEPT !.sect = "all", !.trim = FALSE]
Keep == [DefaultCfg EXCEPT !.sect = "keep", !.trim = FALSE]
Up == [All EXCEPT !.names = "upper"]
Low == [All EXCEPT !.names = "lower"]
NoD == [All EXCEPT !.ignD = TRUE]
NoP == [All EXCEPT !.ignP = TRUE]
Ref == [All EXCEPT !.ents = << <<S("e"), S("&e;")>>, <<S("sp"), S(" ")>>, <<S("#1234567"), S("%n;")>> >>,
                   !.pents = << <<S("k"), S("TEMP ")>>, <<S("p"), S("%k;")>>, <<S("i"), S("IGNORE")>> >>]

\* ropes of one piece
I(s) == <<O(S(s))>>
R == <<O(S("<r>"))>>
\* events
Opn(n) == <<"open", I(n)>>
Cls == <<"close">>
Xcl == <<"xclose">>
En(n) == <<"end", I(n)>>
Tx(s) == <<"text", I(s)>>
Av(k, v) == <<"attr", I(k), I(v)>>
An(k) == <<"attr0", I(k)>>
RO == O(<<Opn("r"), Cls>>)
RE == O(<<En("r")>>)
Y == O(<<Tx("y")>>)
NO == <<>>

\* most: the largest member to execute, 0 if any (C01 disregards it where the members are nested ever deeper)
Good1(ps, nm, cfg, src, ev) == [name |-> nm, p |-> ps, most |-> 0, cfg |-> cfg, src |-> src, ok |-> TRUE, ev |-> ev, ek |-> "", en |-> NO, lo |-> NO, hi |-> NO]
Bad1(ps, nm, cfg, src, ek, en, lo, hi) == [name |-> nm, p |-> ps, most |-> 0, cfg |-> cfg, src |-> src, ok |-> FALSE, ev |-> NO, ek |-> ek, en |-> en, lo |-> lo, hi |-> hi]
Deep(f) == [f EXCEPT !.most = 300]
\* quadratic in this implementation
Slow(f) == [f EXCEPT !.most = 5000]
\* rejected at the end of the input, at the earliest after the given text
Ends(ps, nm, cfg, src, lo) == Bad1(ps, nm, cfg, src, "syntax", NO, lo, src)
Undef(ps, nm, cfg, src, en, lo) == Bad1(ps, nm, cfg, src, "entity", en, lo, lo)
Stops(ps, nm, cfg, src, lo) == Bad1(ps, nm, cfg, src, "syntax", NO, lo, lo)

Tags == <<
   Good1(<<"C02", "C03">>, "attributes", All, <<O(S("<r")), M(S(" a=1")), M(S(" b='2' c")), O(S("/>"))>>, <<O(<<Opn("r")>>), M(<<Av("a", "1")>>), M(<<Av("b", "2"), An("c")>>), O(<<Xcl>>)>>),
   Good1(<<"C03">>, "attributes without blanks", All, <<O(S("<r ")), M(S("a='>'")), M(S("b=\"\"")), O(S(">"))>>, <<O(<<Opn("r")>>), M(<<Av("a", ">")>>), M(<<Av("b", "")>>), O(<<Cls>>)>>),
   Good1(<<"C03">>, "spaces in a tag", All, <<O(S("<r")), M(S(" ")), O(S("a")), M(<<"\n">>), O(<<"=">>), M(<<"\t">>), O(S("b")), M(<<"\r">>), O(S("/>"))>>, <<O(<<Opn("r"), Av("a", "b"), Xcl>>)>>),
   Good1(<<"C03">>, "spaces in an end tag", All, <<O(S("<r></r")), M(S(" ")), O(S(">"))>>, <<RO, RE>>),
   Good1(<<"C02", "C03">>, "elements", All, <<O(S("<r>")), M(S("<b>")), O(S("t")), M(S("</b>")), O(S("</r>"))>>, <<RO, M(<<Opn("b"), Cls>>), O(<<Tx("t")>>), M(<<En("b")>>), RE>>),
   Good1(<<"C02", "C04">>, "siblings", All, <<O(S("<r>")), M(S("<b a=1>x</b>y<c/>"))>>, <<RO, M(<<Opn("b"), Av("a", "1"), Cls, Tx("x"), En("b"), Tx("y"), Opn("c"), Xcl>>)>>),
   Good1(<<"C02", "C03">>, "empty tags", All, <<M(S("<>x</>"))>>, <<M(<<<<"open", NO>>, Cls, Tx("x"), <<"end", NO>>>>)>>),
   Good1(<<"C03", "C10">>, "a long name", All, <<O(S("<rA")), M(S("b-C.")), O(S("></rA")), M(S("b-C.")), O(S(">"))>>,
         <<O(<<<<"open", <<O(S("rA")), M(S("b-C."))>>>>, Cls, <<"end", <<O(S("rA")), M(S("b-C."))>>>>>>)>>),
   Good1(<<"C03", "C10">>, "a long attribute name", Low, <<O(S("<r ")), M(S("aB")), O(S("=X ")), M(S("Cd")), O(S(">"))>>,
         <<O(<<Opn("r"), <<"attr", <<M(S("ab"))>>, I("X")>>, <<"attr0", <<M(S("cd"))>>>>, Cls>>)>>),
   Good1(<<"C03", "C11">>, "a long value", Ref, <<O(S("<r a='")), M(S("&#65;>")), M(S(" \"")), O(S("'></r>"))>>, <<O(<<Opn("r"), <<"attr", I("a"), <<M(S("A>")), M(S(" \""))>>>>, Cls>>), RE>>),
   Good1(<<"C03", "C11", "C13">>, "a long plain value", Ref, <<O(S("<r a=")), M(S("&u;/")), M(S("<<")), O(S("></r>"))>>, <<O(<<Opn("r"), <<"attr", I("a"), <<M(S("&u;/")), M(S("<<"))>>>>, Cls>>), RE>>),
   Good1(<<"C03">>, "a long value in double quotes", All, <<O(S("<r a=\"")), M(<<"\n", "'", "<", ">">>), O(S("\"/>"))>>, <<O(<<Opn("r"), <<"attr", I("a"), <<M(<<"\n", "'", "<", ">">>)>>>>, Xcl>>)>>),
   Ends(<<"C03", "C14">>, "unfinished value", All, <<O(S("<r a='")), M(S("\"")), M(S(" ")), O(S(">"))>>, <<O(S("<r a='")), M(S("\"")), M(S(" ")), O(S(">"))>>),
   Stops(<<"C03", "C14">>, "a bad character after attributes", All, <<O(S("<r")), M(S(" a=1")), O(S(" ?>"))>>, <<O(S("<r")), M(S(" a=1")), O(S(" "))>>),
   Stops(<<"C03", "C14">>, "a missing value after lines", All, <<O(S("<r>")), M(<<"x", "\n">>), O(S("<b c=>"))>>, <<O(S("<r>")), M(<<"x", "\n">>), O(S("<b c="))>>),
   Stops(<<"C14">>, "an unfinished tag after long lines", All, <<O(S("<r>")), M(<<"x", "u984c">>), O(<<"\r", "\n">>), M(<<"u984c">>), O(S("</b <")), M(S("y")) >>,
         <<O(S("<r>")), M(<<"x", "u984c">>), O(<<"\r", "\n">>), M(<<"u984c">>), O(S("</b ")) >>)
>>

Texts == <<
   Good1(<<"C04">>, "a long text", All, <<O(S("<r>")), M(S("x ")), M(<<"u984c">>)>>, <<RO, O(<< <<"text", <<M(S("x ")), M(<<"u984c">>)>>>> >>)>>),
   Good1(<<"C04">>, "blanks around text", All, <<O(S("<r>")), M(S(" ")), O(S("x")), M(<<"\n">>), O(S("</r>"))>>, <<RO, O(<<Tx("x")>>), RE>>),
   Good1(<<"C04">>, "blanks kept around text", Raw, <<O(S("<r>")), M(S(" ")), O(S("x")), M(<<"\n">>), O(S("</r>"))>>, <<RO, O(<< <<"text", <<M(S(" ")), O(S("x")), M(<<"\n">>)>>>> >>), RE>>),
   Good1(<<"C04">>, "blanks only", All, <<O(S("<r>")), M(<<" ", "\n">>), O(S("</r>")), M(<<"\r", "\n", "\t">>)>>, <<RO, RE>>),
   Good1(<<"C04">>, "blanks within text", All, <<O(S("<r>x")), M(<<" ", "\t">>), O(<<"y">>), M(<<"\f">>)>>, <<RO, O(<< <<"text", <<O(S("x")), M(<<" ", "\t">>), O(<<"y">>), M(<<"\f">>)>>>> >>)>>),
   Good1(<<"C04", "C11">>, "blanks from references", Ref, <<O(S("<r> ")), M(S("&sp;&#10;")), O(S(" </r>"))>>, <<RO, O(<< <<"text", <<M(<<" ", "\n">>)>>>> >>), RE>>),
   Good1(<<"C04", "C03">>, "less-than signs", All, <<O(S("<r>")), M(S("<")), O(S(" ")), M(S("<1")), O(S("</r>"))>>, <<RO, O(<< <<"text", <<M(S("<")), O(S(" ")), M(S("<1"))>>>> >>), RE>>),
   Good1(<<"C04", "C07">>, "brackets in text", All, <<O(S("<r>")), M(S("]]")), O(S(" ")), M(S("]]>")), O(S("</r>"))>>, <<RO, O(<< <<"text", <<M(S("]]")), O(S(" ")), M(S("]]>"))>>>> >>), RE>>),
   Good1(<<"C04">>, "spaces before the content", Raw, <<M(S(" ")), M(<<"\n">>), O(S("<r/>"))>>, <<O(<<Opn("r"), Xcl>>)>>),
   Good1(<<"C04", "C02">>, "many texts", Raw, <<O(S("<r>")), M(S(" <b>x <c/>")), O(S("</r>"))>>, <<RO, M(<<Tx(" "), Opn("b"), Cls, Tx("x "), Opn("c"), Xcl>>), RE>>)
>>

Comments == <<
   Good1(<<"C05">>, "comments", All, <<O(S("<r>")), M(S("<!-- > -->")), O(S("t")), M(S("<!>")), O(S("</r>"))>>, <<RO, O(<<Tx("t")>>), RE>>),
   Good1(<<"C05">>, "comments between texts", Raw, <<O(S("<r>")), M(S("x<!-- <b> -->y<?p>")), O(S("</r>"))>>, <<RO, M(<<Tx("x"), Tx("y"), <<"pi", I("<?p>")>>>>), RE>>),
   Good1(<<"C05">>, "comments in one declaration", All, <<O(S("<r><!")), M(S("----")), M(S("--x-- ")), O(S("-- -->"))>>, <<RO>>),
   Good1(<<"C05">>, "a long comment", All, <<O(S("<r><!--")), M(S("- <b>")), M(S("]]>")), O(S("-->"))>>, <<RO>>),
   Good1(<<"C05", "C07">>, "comments in INCLUDE", All, <<O(S("<r><![INCLUDE[")), M(S("<!--]]>-->")), O(S("x")), M(S("<!>")), O(S("]]></r>"))>>, <<RO, O(<<Tx("x")>>), RE>>),
   Good1(<<"C05", "C09">>, "prolog", All, <<M(S(" <!---->")), M(<<"<", "?", "p", ">", "\n">>), O(S("<r/>"))>>, <<M(<< <<"pi", I("<?p>")>> >>), O(<<Opn("r"), Xcl>>)>>),
   Stops(<<"C05", "C14">>, "a bad comment after comments", All, <<O(S("<r><!----")), M(S(" --x--")), O(S(" x>"))>>, <<O(S("<r><!----")), M(S(" --x--"))>>) ,
   Ends(<<"C05", "C14">>, "unfinished comment", All, <<O(S("<r>")), M(S("x")), O(S("<!--")), M(S(" -")), O(S(" "))>>, <<O(S("<r>")), M(S("x")), O(S("<!--")), M(S(" -")), O(S(" "))>>)
>>

Sections == <<
   Good1(<<"C06">>, "nested pairs in IGNORE", All, <<O(S("<r><![IGNORE[")), M(S("<![")), O(S("x")), M(S("]]>")), O(S("]]>y"))>>, <<RO, Y>>),
   Good1(<<"C06">>, "sibling pairs in IGNORE", All, <<O(S("<r><![IGNORE[")), M(S("<![x]]>")), O(S("]]>y"))>>, <<RO, Y>>),
   Good1(<<"C06">>, "IGNORE sections", All, <<O(S("<r>")), M(S("<![IGNORE[<b]]>")), O(S("y"))>>, <<RO, Y>>),
   Good1(<<"C06">>, "brackets in IGNORE", All, <<O(S("<r><![IGNORE[")), M(S("]]")), O(S("x")), M(S("<!<")), O(S("]]>y"))>>, <<RO, Y>>),
   Good1(<<"C06", "C13">>, "references in IGNORE", All, <<O(S("<r><![IGNORE[")), M(S("&u;")), O(S("]]>y"))>>, <<RO, Y>>),
   Good1(<<"C06">>, "CDATA sections", All, <<O(S("<r>")), M(S("<![CDATA[<]]>")), O(S("y"))>>, <<RO, M(<<Tx("<")>>), Y>>),
   Good1(<<"C06", "C13">>, "CDATA text", All, <<O(S("<r><![CDATA[")), M(S("<![CDATA[&u;")), M(S("]]")), O(S("]]></r>"))>>, <<RO, O(<< <<"text", <<M(S("<![CDATA[&u;")), M(S("]]"))>>>> >>), RE>>),
   Good1(<<"C06">>, "blanks in CDATA", All, <<O(S("<r><![CDATA[")), M(S(" ")), O(S("x")), M(<<"\n">>), O(S("y")), M(<<"\t">>), O(S("]]></r>"))>>, <<RO, O(<< <<"text", <<O(S("x")), M(<<"\n">>), O(S("y"))>>>> >>), RE>>),
   Good1(<<"C06", "C11">>, "RCDATA text", Ref, <<O(S("<r><![RCDATA[")), M(S("&e;")), M(S("<b>")), O(S("]]></r>"))>>, <<RO, O(<< <<"text", <<M(S("&e;")), M(S("<b>"))>>>> >>), RE>>),
   Good1(<<"C06", "C08">>, "nested pairs in IGNORE kept", Keep, <<O(S("<r><![IGNORE[")), M(S("<![")), O(S("x")), M(S("]]>")), O(S("]]></r>"))>>,
         <<RO, O(<< <<"sect", I("IGNORE"), <<M(S("<![")), O(S("x")), M(S("]]>"))>>>> >>), RE>>),
   Ends(<<"C06", "C14">>, "unfinished section", All, <<O(S("<r><![CDATA[")), M(S("]]")), M(S("<"))>>, <<O(S("<r><![CDATA[")), M(S("]]")), M(S("<"))>>),
   Ends(<<"C06", "C14">>, "unfinished IGNORE", All, <<O(S("<r><![IGNORE[")), M(S("<![")), M(S("]]>"))>>, <<O(S("<r><![IGNORE[")), M(S("<![")), M(S("]]>"))>>)
>>

Includes == <<
   Good1(<<"C07", "C02">>, "INCLUDE sections", All, <<O(S("<r>")), M(S("<![INCLUDE[<b>]]>")), O(S("y"))>>, <<RO, M(<<Opn("b"), Cls>>), Y>>),
   Good1(<<"C07">>, "empty INCLUDE sections", All, <<O(S("<r>")), M(S("<![[]]>")), O(S("y"))>>, <<RO, Y>>),
   Good1(<<"C07", "C02">>, "a long INCLUDE section", All, <<O(S("<r><![INCLUDE[")), M(S("<b c=']]>'>x]]</b><?]]>")), O(S("]]>y"))>>,
         <<RO, M(<<Opn("b"), Av("c", "]]>"), Cls, Tx("x]]"), En("b"), <<"pi", I("<?]]>")>>>>), Y>>),
   Good1(<<"C07">>, "brackets in INCLUDE", All, <<O(S("<r><![INCLUDE[")), M(S("]]")), O(S(" ")), M(S("]")), O(S("x]]></r>"))>>, <<RO, O(<< <<"text", <<M(S("]]")), O(S(" ")), M(S("]")), O(S("x"))>>>> >>), RE>>),
   Deep(Good1(<<"C07">>, "nested INCLUDE sections", All, <<O(S("<r>")), M(S("<![INCLUDE[")), O(S("x")), M(S("]]>"))>>, <<RO, O(<<Tx("x")>>)>>)),
   Deep(Good1(<<"C07">>, "nested INCLUDE sections with contents", All, <<O(S("<r>")), M(S("<![ TEMP [<a b=c>")), O(S("x")), M(S("</a>y]]>")), O(S("</r>"))>>,
              <<RO, M(<<Opn("a"), Av("b", "c"), Cls>>), O(<<Tx("x")>>), M(<<En("a"), Tx("y")>>), RE>>)),
   Deep(Ends(<<"C07", "C14">>, "unfinished INCLUDE sections", All, <<O(S("<r>")), M(S("<![INCLUDE[")), O(S("x")), M(S("]]"))>>, <<O(S("<r>")), M(S("<![INCLUDE[")), O(S("x")), M(S("]]"))>>)),
   Slow(Undef(<<"C07", "C13">>, "undefined in a long INCLUDE section", All, <<O(S("<r><![INCLUDE[")), M(S("<b>x</b>")), O(S("&u;]]>"))>>, I("u"), <<O(S("<r><![INCLUDE[")), M(S("<b>x</b>"))>>)),
   Deep(Undef(<<"C07", "C13">>, "undefined in nested INCLUDE sections", All, <<O(S("<r>")), M(S("<![INCLUDE[a<b>")), O(S("&u;")), M(S("]]>"))>>, I("u"), <<O(S("<r>")), M(S("<![INCLUDE[a<b>"))>>)),
   Slow(Stops(<<"C07", "C14">>, "a declaration in a long INCLUDE section", All, <<O(S("<r><![INCLUDE[")), M(S("<b>x</b>")), O(S("<!D d>]]>"))>>, <<O(S("<r><![INCLUDE[")), M(S("<b>x</b>"))>>)),
   Deep(Good1(<<"C08">>, "nested INCLUDE sections kept", Keep, <<O(S("<r><![INCLUDE[")), M(S("<![[")), O(S("x")), M(S("]]>")), O(S("]]></r>"))>>,
              <<RO, O(<< <<"sect", I("INCLUDE"), <<M(S("<![[")), O(S("x")), M(S("]]>"))>>>> >>), RE>>)),
   Deep(Ends(<<"C08", "C14">>, "unfinished kept sections", Keep, <<O(S("<r>")), M(S("<![[")), O(S("x")), M(S("]]"))>>, <<O(S("<r>")), M(S("<![[")), O(S("x")), M(S("]]"))>>)),
   Good1(<<"C08">>, "sections in a kept section", Keep, <<O(S("<r><![TEMP[")), M(S("<![[x]]>")), M(S("<![CDATA[<]]>")), O(S("]]></r>"))>>,
         <<RO, O(<< <<"sect", I("TEMP"), <<M(S("<![[x]]>")), M(S("<![CDATA[<]]>"))>>>> >>), RE>>),
   Good1(<<"C08">>, "tags in a kept section", Keep, <<O(S("<r><![[")), M(S("<a b=']]>'>")), O(S("x")), M(S("</a><!--]]>-->")), O(S("]]></r>"))>>,
         <<RO, O(<< <<"sect", NO, <<M(S("<a b=']]>'>")), O(S("x")), M(S("</a><!--]]>-->"))>>>> >>), RE>>),
   Good1(<<"C08">>, "sections kept", Keep, <<O(S("<r>")), M(S("<![INCLUDE[<b>]]>")), O(S("y"))>>, <<RO, M(<< <<"sect", I("INCLUDE"), I("<b>")>> >>), Y>>)
>>

Keywords == <<
   Good1(<<"C08">>, "keywords and IGNORE", All, <<O(S("<r><![")), M(S("TEMP ")), M(S("cdata RCDATA ")), O(S("IGNORE[<b]]>y"))>>, <<RO, Y>>),
   Good1(<<"C08">>, "IGNORE and keywords", All, <<O(S("<r><![IGNORE")), M(<<"\n", "C", "D", "A", "T", "A">>), O(S("[<b]]>y"))>>, <<RO, Y>>),
   Good1(<<"C08">>, "keywords and CDATA", All, <<O(S("<r><![")), M(S("INCLUDE ")), M(S("rcdata ")), O(S("CData")), M(S(" Temp")), O(S("[<b]]>y"))>>, <<RO, O(<<Tx("<b"), Tx("y")>>)>>),
   Good1(<<"C08">>, "blanks in keywords", All, <<O(S("<r><![")), M(<<" ", "\n">>), O(S("CDATA")), M(<<"\t">>), O(S("[<b]]>y"))>>, <<RO, O(<<Tx("<b"), Tx("y")>>)>>),
   Good1(<<"C08", "C12">>, "keywords kept", [Keep EXCEPT !.pents = Ref.pents], <<O(S("<r><![")), M(S("%k;")), O(S("TEMP[]]>"))>>, <<RO, O(<< <<"sect", <<M(S("TEMP ")), O(S("TEMP"))>>, NO>> >>)>>),
   Good1(<<"C08", "C12">>, "keyword references", Ref, <<O(S("<r><![")), M(S("%k;")), O(S("%i[<b]]>y"))>>, <<RO, Y>>),
   Bad1(<<"C08", "C12">>, "definitions are not expanded again", Ref, <<O(S("<r><![")), M(S("%k;")), O(S("%p;[x]]>"))>>, "keyword", NO, <<O(S("<r><!["))>>, <<O(S("<r><![")), M(S("%k;")), O(S("%p;"))>>),
   Bad1(<<"C08">>, "an unknown keyword among others", All, <<O(S("<r><![")), M(S("TEMP ")), O(S("x")), M(S(" CDATA")), O(S("[x]]>"))>>, "keyword", NO, <<O(S("<r><!["))>>, <<O(S("<r><![")), M(S("TEMP ")), O(S("x")), M(S(" CDATA"))>>),
   Bad1(<<"C08">>, "a long unknown keyword", All, <<O(S("<r><![")), M(S("TEMP")), O(S("s[x]]>"))>>, "keyword", NO, <<O(S("<r><!["))>>, <<O(S("<r><![")), M(S("TEMP")), O(S("s"))>>),
   Bad1(<<"C08">>, "several keywords where one is accepted", DefaultCfg, <<O(S("<r><![CDATA")), M(S(" CDATA")), O(S("[x]]>"))>>, "keyword", NO, <<O(S("<r><!["))>>, <<O(S("<r><![CDATA")), M(S(" CDATA"))>>),
   Bad1(<<"C08">>, "sections of the wrong kind", DefaultCfg, <<O(S("<r>")), M(S("<![[")), O(S("x")), M(S("]]>")), O(S("</r>"))>>, "keyword", NO, <<O(S("<r><!["))>>, <<O(S("<r><!["))>>),
   Undef(<<"C13", "C12">>, "undefined among keyword references", Ref, <<O(S("<r><![")), M(S("%k;")), O(S("%")), M(S("u")), O(S("; CDATA[x]]>"))>>, <<M(S("u"))>>, <<O(S("<r><![")), M(S("%k;"))>>)
>>

Prologs == <<
   Good1(<<"C09", "C02">>, "declarations", All, <<M(S("<!D d>")), M(S("<!E --c-->")), O(S("<r/>"))>>, <<M(<< <<"decl", I("D"), I("d")>> >>), M(<< <<"decl", I("E"), I("--c--")>> >>), O(<<Opn("r"), Xcl>>)>>),
   Good1(<<"C09">>, "declarations ignored", NoD, <<M(S("<!D d><?p>")), O(S("<r/>"))>>, <<M(<< <<"pi", I("<?p>")>> >>), O(<<Opn("r"), Xcl>>)>>),
   Good1(<<"C09">>, "instructions ignored", NoP, <<M(S("<!D d><?p>")), O(S("<r>")), M(S("<? < >x")), O(S("</r>"))>>, <<M(<< <<"decl", I("D"), I("d")>> >>), RO, M(<<Tx("x")>>), RE>>),
   Good1(<<"C09">>, "a long declaration", All, <<O(S("<!D ")), M(S("x ")), M(S("'>' ")), M(S("--\">--\"<\"")), O(S(" ><r/>"))>>, <<O(<< <<"decl", I("D"), <<M(S("x ")), M(S("'>' ")), M(S("--\">--\"<\""))>>>>, Opn("r"), Xcl>>)>>),
   Good1(<<"C09">>, "a long subset", All, <<O(S("<!D [")), M(S("<!E ']>'>")), M(S("<!-- ]> -->")), O(S("]><r/>"))>>, <<O(<< <<"decl", I("D"), <<O(S("[")), M(S("<!E ']>'>")), M(S("<!-- ]> -->")), O(S("]"))>>>>, Opn("r"), Xcl>>)>>),
   Good1(<<"C09">>, "a long keyword", Up, <<O(S("<!")), M(S("d")), M(S(" ")), O(S("d")), M(S(" ")), O(S("><r/>"))>>, <<O(<< <<"decl", <<M(S("d"))>>, I("d")>>, Opn("R"), Xcl>>)>>),
   Good1(<<"C09", "C13">>, "long instructions", All, <<O(S("<?")), M(S("&u;<")), O(S("><r>x<?")), M(S(" '")), O(S(">"))>>,
         <<O(<< <<"pi", <<O(S("<?")), M(S("&u;<")), O(S(">"))>>>> >>), RO, O(<<Tx("x"), <<"pi", <<O(S("<?")), M(S(" '")), O(S(">"))>>>>>>)>>),
   Good1(<<"C09", "C13">>, "references in a declaration", All, <<O(S("<!D ")), M(S("&u;%u;")), O(S("><r/>"))>>, <<O(<< <<"decl", I("D"), <<M(S("&u;%u;"))>>>>, Opn("r"), Xcl>>)>>),
   Deep(Good1(<<"C09">>, "nested brackets in a declaration", NoD, <<O(S("<!D ")), M(S("[")), M(S("]")), O(S("><r/>"))>>, <<O(<<Opn("r"), Xcl>>)>>)),
   Deep(Ends(<<"C09", "C14">>, "unfinished brackets in a declaration", All, <<O(S("<!D ")), M(S("["))>>, <<O(S("<!D ")), M(S("["))>>)),
   Deep(Good1(<<"C09">>, "nested declarations", NoD, <<M(S("<!D [")), M(S("]>")), O(S("<r/>"))>>, <<O(<<Opn("r"), Xcl>>)>>)),
   Ends(<<"C09", "C14">>, "an unfinished declaration", All, <<O(S("<!D ")), M(S("x '>' "))>>, <<O(S("<!D ")), M(S("x '>' "))>>),
   Ends(<<"C09", "C14">>, "an unfinished instruction", All, <<O(S("<r><?")), M(S("x'"))>>, <<O(S("<r><?")), M(S("x'"))>>),
   Stops(<<"C09", "C14">>, "a declaration after the content", All, <<O(S("<r>")), M(S("x<b>")), O(S("<!D d>"))>>, <<O(S("<r>")), M(S("x<b>"))>>),
   Bad1(<<"C02">>, "no content", All, <<M(S(" <!-- -->")), M(S("<?p>"))>>, "syntax", NO, <<M(S(" <!-- -->")), M(S("<?p>"))>>, <<M(S(" <!-- -->")), M(S("<?p>"))>>)
>>

Names == <<
   Good1(<<"C10">>, "a long name in upper case", Up, <<O(S("<r")), M(<<"udf", "a">>), O(S("></r")), M(<<"udf", "A">>), O(S(">"))>>,
         <<O(<<<<"open", <<O(S("R")), M(S("SSA"))>>>>, Cls, <<"end", <<O(S("R")), M(S("SSA"))>>>>>>)>>),
   Good1(<<"C10">>, "a long name in lower case", Low, <<O(S("<R")), M(<<"uc9", "u1c5">>), O(S("></r")), M(<<"ue9", "u1c4">>), O(S(">"))>>,
         <<O(<<<<"open", <<O(S("r")), M(<<"ue9", "u1c6">>)>>>>, Cls, <<"end", <<O(S("r")), M(<<"ue9", "u1c6">>)>>>>>>)>>),
   Good1(<<"C10">>, "many names in upper case", Up, <<O(S("<r")), M(S(" a=b C")), O(S(">")), M(S("<d>x</D>")), O(S("<?p>"))>>,
         <<O(<<Opn("R")>>), M(<<Av("A", "b"), An("C")>>), O(<<Cls>>), M(<<Opn("D"), Cls, Tx("x"), En("D")>>), O(<< <<"pi", I("<?p>")>> >>)>>),
   Good1(<<"C10">>, "a long text with names in upper case", Up, <<O(S("<r a='")), M(S("b")), O(S("'>")), M(S("xY")), O(S("</R>"))>>,
         <<O(<<Opn("R"), <<"attr", I("A"), <<M(S("b"))>>>>, Cls, <<"text", <<M(S("xY"))>>>>>>), O(<<En("R")>>)>>)
>>

References == <<
   Good1(<<"C11">>, "ampersands", All, <<O(S("<r>")), M(S("&")), O(S(" ")), M(S("&#")), O(S("</r>"))>>, <<RO, O(<< <<"text", <<M(S("&")), O(S(" ")), M(S("&#"))>>>> >>), RE>>),
   Good1(<<"C11">>, "references", Ref, <<O(S("<r>")), M(S("&e;")), O(S(" ")), M(S("&#65")), O(S("</r>"))>>, <<RO, O(<< <<"text", <<M(S("&e;")), O(S(" ")), M(S("A"))>>>> >>), RE>>),
   Good1(<<"C11">>, "zeros before a number", Ref, <<O(S("<r>&#")), M(S("0")), O(S("65;&#x")), M(S("00")), O(S("4a;</r>"))>>, <<RO, O(<<Tx("AJ")>>), RE>>),
   Good1(<<"C11">>, "a long name of an entity", [All EXCEPT !.ents = << <<S("e"), S("E")>> >>], <<O(S("<r>")), M(S("&e;;")), O(S("&e</r>"))>>, <<RO, O(<< <<"text", <<M(S("E;")), O(S("E"))>>>> >>), RE>>),
   Good1(<<"C11">>, "numbers that name no character", Ref, <<O(S("<r a='")), M(S("&#1234567;")), O(S("'>x</r>"))>>, <<O(<<Opn("r"), <<"attr", I("a"), <<M(S("%n;"))>>>>, Cls, Tx("x")>>), RE>>),
   Good1(<<"C12">>, "parameter references elsewhere", Ref, <<O(S("<!D ")), M(S("%k;")), O(S("><r a='")), M(S("%u;")), O(S("'>")), M(S("%k;")), O(S("<![RCDATA[")), M(S("%u")), O(S("]]>"))>>,
         <<O(<< <<"decl", I("D"), <<M(S("%k;"))>>>>, Opn("r"), <<"attr", I("a"), <<M(S("%u;"))>>>>, Cls, <<"text", <<M(S("%k;"))>>>>, <<"text", <<M(S("%u"))>>>> >>)>>),
   Undef(<<"C13", "C14">>, "undefined at the end", All, <<O(S("<r>")), M(S("&#38;")), M(S("&")), O(S(" &u;"))>>, I("u"), <<O(S("<r>")), M(S("&#38;")), M(S("&")), O(S(" "))>>),
   Undef(<<"C13", "C14">>, "undefined after defined ones", Ref, <<O(S("<r>")), M(S("&e;x")), O(S("&u; "))>>, I("u"), <<O(S("<r>")), M(S("&e;x"))>>),
   Undef(<<"C13">>, "a long undefined name", Ref, <<O(S("<r>&")), M(S("ab.")), O(S("; "))>>, <<M(S("ab."))>>, I("<r>")),
   Undef(<<"C13", "C11">>, "a long number", Ref, <<O(S("<r>&#1234567")), M(S("0123")), O(S("; "))>>, <<O(S("#1234567")), M(S("0123"))>>, I("<r>")),
   Undef(<<"C13", "C14">>, "undefined after lines", All, <<O(S("<r>")), M(<<"x", "\n">>), O(S("&u; "))>>, I("u"), <<O(S("<r>")), M(<<"x", "\n">>)>>),
   Undef(<<"C13", "C14">>, "undefined in an attribute after others", Ref, <<O(S("<r")), M(S(" a='&e;'")), O(S(" b='&u'>"))>>, I("u"), <<O(S("<r")), M(S(" a='&e;'")), O(S(" b='"))>>),
   Undef(<<"C13", "C14">>, "undefined in a long RCDATA section", Ref, <<O(S("<r><![RCDATA[")), M(S("<&e;")), O(S("&u]]>"))>>, I("u"), <<O(S("<r><![RCDATA[")), M(S("<&e;"))>>),
   Good1(<<"C13">>, "undefined where nothing is expanded", Ref, <<O(S("<r a=")), M(S("&u;")), O(S("><!--")), M(S("&u;")), O(S("--><![CDATA[")), M(S("&u;")), O(S("]]>"))>>,
         <<O(<<Opn("r"), <<"attr", I("a"), <<M(S("&u;"))>>>>, Cls, <<"text", <<M(S("&u;"))>>>> >>)>>)
>>
Families == Tags \o Texts \o Comments \o Sections \o Includes \o Keywords \o Prologs \o Names \o References

VARIABLES fam, n, st
vars == <<fam, n, st>>
F == Families[fam]
Source == Cat(F.src, n)
Init == fam \in 1..Len(Families) /\ n = 1 /\ st = PInit
Read == ~Halted(st) /\ st' = Step(Source, F.cfg, st) /\ UNCHANGED <<fam, n>>
Grow == Halted(st) /\ n < Depth /\ n' = n + 1 /\ st' = PInit /\ UNCHANGED fam
Spec == Init /\ [][Read \/ Grow]_vars

Regular == Halted(st) => /\ POk(st) = F.ok
                         /\ F.ok => st.out = EventsOf(F.ev, n)
                         /\ ~F.ok => /\ st.ek = F.ek /\ (F.ek = "entity" => st.en = Cat(F.en, n))
                                     /\ st.lo = Len(Cat(F.lo, n)) + 1 /\ st.hi = Len(Cat(F.hi, n)) + 1
Report == Halted(st) /\ n = Depth => PrintT(ToJson(F))
\* On a violation: which family it is
Alias == [name |-> F.name, n |-> n, ok |-> POk(st), out |-> st.out, want |-> IF F.ok THEN EventsOf(F.ev, n) ELSE <<>>, err |-> <<st.lo, st.hi, st.ek, st.en, Len(Source)>>, range |-> <<Len(Cat(F.lo, n)) + 1, Len(Cat(F.hi, n)) + 1>>]
=============================================================================
