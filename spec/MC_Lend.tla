------------------------------- MODULE MC_Lend -------------------------------
(***************************************************************************)
(* C33: documents whose texts are written in pieces, read as string        *)
(* slices.  Next to the document, one in which each reference is replaced  *)
(* by a letter used for nothing else: where it appears in a text, that     *)
(* text is not in the source and cannot be borrowed.                       *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlNormalize, SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Cfg == [DefaultCfg EXCEPT !.names = "lower", !.sect = "all", !.ignD = TRUE, !.ignP = TRUE, !.ents = << <<S("one"), S("1")>> >>]
Q == "Q"
P(s) == <<S(s), S(s)>>
R(s, t) == <<S(s), S(t)>>
Attrs1 == << P(""), P(" k"), P(" k=v"), P(" k = 'a b'"), P(" K=\"\""), P(" k=&#120;"), R(" k='x&one;'", " k='xQ'"), P(" k='%k; #'") >>
Pieces1 == << P("x"), P(" y "), P("\n"), R("&#120;", "Q"), R("z&one;", "zQ"), P("<![CDATA[<z&one;>]]>"), P("<![RCDATA[w ]]>"), R("<![RCDATA[&#65;]]>", "<![RCDATA[Q]]>"), P("<!-- c -->"), P("<![CDATA[]]>"),
             P("<![IGNORE[x]]>"), R("<![INCLUDE[v]]>", "<![INCLUDE[v]]>"), P("<?p>"), P("<b>u</b>"), P("<b>"), P("5%p;"), P("<![ CDATA [ #;v\n]]>") >>
Ref == <<"ref">>
F(n, T) == <<S(n), T, "req">>
D(n, T) == <<S(n), T, "def">>
Struct(fs) == <<"struct", fs>>
Types == << Struct(<<D("k", Ref), F("$value", Ref)>>), Struct(<<D("k", Ref), D("b", <<"seq", Ref>>)>>), <<"opt", Ref>>, Struct(<<D("c", Ref)>>) >>
VARIABLES src, alt, left, ty, out
vars == <<src, alt, left, ty, out>>
Init == \E a \in 1..Len(Attrs1) : src = S("<r") \o Attrs1[a][1] \o <<">">> /\ alt = S("<r") \o Attrs1[a][2] \o <<">">> /\ left = Depth /\ ty = 0 /\ out = <<>>
Write(p) == ty = 0 /\ left > 0 /\ src' = src \o Pieces1[p][1] /\ alt' = alt \o Pieces1[p][2] /\ left' = left - 1 /\ UNCHANGED <<ty, out>>
RECURSIVE AfterTag(_)
AfterTag(s) == IF s[1] = ">" THEN Tail(s) ELSE AfterTag(Tail(s))
Doc(s, t) == IF t = 4 THEN S("<o><c>") \o AfterTag(s) \o S("</c></o>") ELSE s \o S("</r>")
HasQ(t) == \E i \in 1..Len(t) : t[i] = Q
Expanded(evs) == \E i \in 1..Len(evs) : (evs[i][1] = "text" /\ HasQ(evs[i][2])) \/ (evs[i][1] = "attr" /\ HasQ(evs[i][3]))
Read(t) == /\ ty = 0 /\ ty' = t /\ UNCHANGED <<src, alt, left>>
           /\ LET evs == Parse(Doc(alt, t), Cfg).out
                  fixed == Normalize(evs)
                  whole == Outcome(fixed[2], Types[t])
              IN out' = IF ~Expanded(evs) THEN whole
                        ELSE IF t \in {2, 3} \/ (t = 1 /\ \E i \in 2..Len(evs) : evs[i][1] = "open") THEN Open      \* which of the texts are read is not settled here
                        ELSE Err
Next == (\E p \in 1..Len(Pieces1) : Write(p)) \/ (\E t \in 1..Len(Types) : Read(t))
Spec == Init /\ [][Next]_vars
Done == ty # 0
Report == Done => PrintT(ToJson(<<Doc(src, ty), ty, out>>))
ASSUME PrintT(ToJson([types |-> Types, cfg |-> Cfg]))

\* the two documents have the same structure
Parsed == Parse(Doc(src, ty), Cfg)
Other == Parse(Doc(alt, ty), Cfg)
SameShape == Done => POk(Parsed) /\ POk(Other) /\ Len(Parsed.out) = Len(Other.out) /\ \A i \in 1..Len(Parsed.out) : Parsed.out[i][1] = Other.out[i][1]
\* what is borrowed is in the document, letter for letter
RECURSIVE In(_, _)
In(t, s) == Len(t) <= Len(s) /\ (SubSeq(s, 1, Len(t)) = t \/ In(t, Tail(s)))
Contained == Done /\ ty \in {1, 4} /\ out[1] = "ok" => \A i \in 1..Len(out[2][2]) : out[2][2][i][1] = "str" => In(out[2][2][i][2], Doc(src, ty))
=============================================================================
