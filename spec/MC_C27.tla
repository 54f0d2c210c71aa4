------------------------------- MODULE MC_C27 -------------------------------
(***************************************************************************)
(* C27: a document is written down piece by piece, each piece spelled in   *)
(* one of several ways, while its plain meaning (can: the fragment of its  *)
(* canonical spelling) is recorded next to it; then it is read as a value. *)
(* The whole way from the source (parser, end tags, deserializer) must     *)
(* give the value of the canonical fragment.                               *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlNormalize, SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Cfg == [DefaultCfg EXCEPT !.names = "lower", !.sect = "all", !.ignD = TRUE, !.ignP = TRUE, !.ents = << <<S("lt"), S("<")>>, <<S("one"), S("1")>> >>, !.pents = << <<S("cd"), S("CDATA")>> >>]
At1 == << <<"attr", S("x"), S("1")>> >>
Starts == << [n |-> S("a"), src |-> S("<a>"), at |-> <<>>], [n |-> S("a"), src |-> S("<A\n>"), at |-> <<>>], [n |-> S("a"), src |-> S("<a x=\"1\">"), at |-> At1],
             [n |-> S("a"), src |-> S("<A X = '&one;'>"), at |-> At1], [n |-> S("b"), src |-> S("<b>"), at |-> <<>>], [n |-> S("b"), src |-> S("<B ON x=&#49;>"), at |-> << <<"attr0", S("on")>>, <<"attr", S("x"), S("&#49;")>> >>],
             [n |-> S("b"), src |-> S("<b x=1 on>"), at |-> At1 \o << <<"attr0", S("on")>> >>],
             [n |-> S("a"), src |-> S("<a x='\"'\tON>"), at |-> << <<"attr", S("x"), S("\"")>>, <<"attr0", S("on")>> >>] >>
Empties == << [n |-> S("a"), src |-> S("<a/>"), at |-> <<>>], [n |-> S("b"), src |-> S("<B X=1\n/>"), at |-> At1] >>
Texts == << [t |-> S("x"), src |-> S("x")], [t |-> S("x"), src |-> S("&#120;")], [t |-> S("x"), src |-> S("<![CDATA[x]]>")], [t |-> S("1<"), src |-> S("1&lt;")], [t |-> S("1<"), src |-> S("<![ %cd; [ 1< ]]>")],
            [t |-> S("1"), src |-> S("1")], [t |-> S("1"), src |-> S("<![rcdata[&one;]]>")], [t |-> S(" 1"), src |-> S("&#32;1")], [t |-> <<>>, src |-> S("<![CDATA[]]>")] >>
Fillers == <<S("<!-- <a> -->"), S("<?p x=\">"), S("<![IGNORE[<a>]]>"), S("<!>")>>
I8 == <<"int", "i8">>
Opt(T) == <<"opt", T>>
Struct(fs) == <<"struct", fs>>
F(n, T) == <<S(n), T, "req">>
D(n, T) == <<S(n), T, "def">>
Leaf == Struct(<<D("x", I8), D("on", <<"bool">>), D("$value", <<"str">>)>>)
Types == << <<"any">>, Struct(<<D("a", <<"seq", Leaf>>), D("b", Opt(Leaf))>>), Struct(<<D("a", <<"str">>), D("b", Struct(<<D("on", <<"bool">>), D("a", I8), D("x", <<"str">>)>>))>>),
            Struct(<<D("$value", <<"seq", <<"enum", << <<S("a"), "newtype", <<"str">>>>, <<S("b"), "struct", <<D("x", I8), D("a", <<"str">>)>>>> >>>>>>)>>) >>

VARIABLES src, can, open,     \* open: the elements begun, innermost last: [n: name, kids: has child elements]
          left, bound,        \* pieces left to write; nothing but a tag may follow (after an omitted end tag, or blanks after text)
          last,               \* "tag", "text" or "blank"
          inc,                \* INCLUDE sections begun
          ty, out
vars == <<src, can, open, left, bound, last, inc, ty, out>>
Writing == ty = 0
\* the prolog
Prologs == <<S("<r>"), S(" <!DOCTYPE r [<!ENTITY e \"<\">]>\n<?p><R Y=\"\">"), S("<!-- c --><r\ty>")>>
RootAt == << <<>>, << <<"attr", S("y"), <<>>>> >>, << <<"attr0", S("y")>> >> >>
Init == \E p \in IF IOEnv.ALPHA = "few" THEN {1} ELSE 1..Len(Prologs) :
   /\ src = Prologs[p] /\ can = << <<"open", S("r")>> >> \o RootAt[p] \o << <<"close">> >>
   /\ open = << [n |-> S("r"), kids |-> FALSE] >>
   /\ left = Depth /\ bound = FALSE /\ last = "tag" /\ inc = 0 /\ ty = 0 /\ out = <<>>
Piece == Writing /\ left > 0 /\ open # <<>> /\ left' = left - 1 /\ UNCHANGED <<ty, out>>
Top == open[Len(open)]
WithKid == [open EXCEPT ![Len(open)].kids = TRUE]
Start(i) == /\ Piece /\ src' = src \o Starts[i].src /\ can' = can \o << <<"open", Starts[i].n>> >> \o Starts[i].at \o << <<"close">> >>
            /\ open' = Append(WithKid, [n |-> Starts[i].n, kids |-> FALSE]) /\ bound' = FALSE /\ last' = "tag" /\ UNCHANGED inc
Empty(i) == /\ Piece /\ src' = src \o Empties[i].src /\ can' = can \o << <<"open", Empties[i].n>> >> \o Empties[i].at \o << <<"close">>, <<"end", Empties[i].n>> >>
            /\ open' = WithKid /\ bound' = FALSE /\ last' = "tag" /\ UNCHANGED inc
Write(i) == /\ Piece /\ ~bound /\ src' = src \o Texts[i].src /\ can' = (IF Texts[i].t = <<>> THEN can ELSE Append(can, <<"text", Texts[i].t>>))
            /\ last' = "text" /\ UNCHANGED <<open, bound, inc>>
Filler(i) == Piece /\ src' = src \o Fillers[i] /\ UNCHANGED <<can, open, bound, last, inc>>
Blanks == Piece /\ last # "blank" /\ src' = src \o <<"\n", " ">> /\ last' = "blank" /\ bound' = (bound \/ last = "text") /\ UNCHANGED <<can, open, inc>>
Include == Piece /\ inc = 0 /\ src' = src \o S("<![ Include temp [") /\ inc' = inc + 1 /\ UNCHANGED <<can, open, bound, last>>
EndInclude == Writing /\ inc > 0 /\ open # <<>> /\ src' = src \o S("]]>") /\ inc' = inc - 1 /\ UNCHANGED <<can, open, left, bound, last, ty, out>>
Ended(text) == /\ src' = src \o text /\ can' = Append(can, <<"end", Top.n>>) /\ open' = SubSeq(open, 1, Len(open) - 1) /\ last' = "tag" /\ UNCHANGED <<left, inc, ty, out>>
End == Writing /\ open # <<>> /\ Ended(S("</") \o Top.n \o <<">">>) /\ bound' = FALSE
EndOther == Writing /\ open # <<>> /\ Len(open) # 1 /\ Ended(S("</") \o ToUpper(Top.n) \o S("\n>")) /\ bound' = FALSE
\* the end tag of an element with text only, unless it would be taken for that of another
Omit == /\ Writing /\ open # <<>> /\ ~Top.kids /\ ~bound /\ Len(open) > 1 /\ \A k \in 1..(Len(open) - 1) : open[k].n # Top.n
        /\ Ended(<<>>) /\ bound' = TRUE
ReadAs(t) == Writing /\ open = <<>> /\ inc = 0 /\ ty' = t /\ out' = Outcome(can, Types[t]) /\ UNCHANGED <<src, can, open, left, bound, last, inc>>
\* a few of the spellings, to go deeper
Few == IOEnv.ALPHA = "few"
Some(n, few) == IF Few THEN few ELSE 1..n
Next == \/ \E i \in Some(Len(Starts), {1, 4, 6}) : Start(i)
        \/ \E i \in Some(Len(Empties), {1}) : Empty(i)
        \/ \E i \in Some(Len(Texts), {1, 5, 7}) : Write(i)
        \/ \E i \in Some(Len(Fillers), {1}) : Filler(i)
        \/ Blanks \/ Include \/ EndInclude \/ End \/ EndOther \/ Omit
        \/ \E t \in 1..Len(Types) : ReadAs(t)
Spec == Init /\ [][Next]_vars
Done == ty # 0
Report == Done => PrintT(ToJson(<<src, can, ty, out>>))
ASSUME PrintT(ToJson([types |-> Types, cfg |-> Cfg]))

Parsed == Parse(src, Cfg)
Repaired == Normalize(Parsed.out)
\* the whole way gives the value of the canonical fragment
Equivalent == Done => /\ POk(Parsed) /\ Repaired[1] /\ Outcome(Repaired[2], Types[ty]) = out
CanonicalStays == Done => IsBalanced(can) /\ Normalize(can) = <<TRUE, can>>
=============================================================================
