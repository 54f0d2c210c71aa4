------------------------------- MODULE MC_C08 -------------------------------
(* C08: marked section status keywords select the right handling. *)
EXTENDS ParserSession
T == << S("<r><!["), S("[<b>]]>x"), S("IGNORE"), S("cdata"), S("RcData"), S("INCLUDE"), S("temp"), S("bogus"), S(" "), <<"\n">>,
        S("%inc;"), S("%none;"), S("%two;"), <<"\f">>, <<"u130">> >>
P == << <<S("inc"), S("Include")>>, <<S("none"), <<>>>>, <<S("two"), S(" INCLUDE cDaTa ")>> >>
C == << [DefaultCfg EXCEPT !.sect = "all", !.pents = P], [DefaultCfg EXCEPT !.sect = "chars", !.pents = P],
        [DefaultCfg EXCEPT !.sect = "keep", !.pents = P] >>
F == << <<<<1>>, <<2>>>>, <<<<1, 9>>, <<9, 2>>>> >>
Spaces == {9, 10, 14}
\* the words of the keyword list: maximal runs of tokens between spaces, after expansion
TokText(t) == IF t \in {11, 12, 13} THEN P[t - 10][2] ELSE Toks[t]
RECURSIVE KwText(_)
KwText(ts) == IF ts = <<>> THEN <<>> ELSE TokText(Head(ts)) \o KwText(Tail(ts))
RECURSIVE WordSet(_, _, _)
WordSet(s, i, w) ==
   IF i > Len(s) THEN (IF w = <<>> THEN {} ELSE {w})
   ELSE IF s[i] \in AsciiWs THEN (IF w = <<>> THEN {} ELSE {w}) \cup WordSet(s, i + 1, <<>>)
   ELSE WordSet(s, i + 1, Append(w, s[i]))
KwOnly == OnlyToks(3..15)
Words0 == {AsciiLower(w) : w \in WordSet(KwText(Body), 1, <<>>)}
Known == {S("ignore"), S("cdata"), S("rcdata"), S("include"), S("temp")}
X == <<"text", <<"x">>>>
R == << <<"open", <<"r">>>>, <<"close">> >>
B == <<"text", S("<b>")>>
StrongestKeyword ==
   Final /\ KwOnly /\ Cfg.sect = "all" =>
      IF Words0 \ Known # {} THEN ~POk(st)
      ELSE /\ POk(st)
           /\ st.out = IF S("ignore") \in Words0 THEN R \o <<X>>
                       ELSE IF Words0 \cap {S("cdata"), S("rcdata")} # {} THEN R \o <<B, X>>
                       ELSE R \o << <<"open", <<"b">>>>, <<"close">>, X >>
OnlyCharacterData ==
   Final /\ KwOnly /\ Cfg.sect = "chars" /\ POk(st) =>
      Words0 \in {{S("cdata")}, {S("rcdata")}} /\ st.out = R \o <<B, X>>
KeptVerbatim ==
   Final /\ KwOnly /\ Cfg.sect = "keep" /\ Words0 \ Known = {} =>
      POk(st) /\ Len(st.out) = 4 /\ st.out[3][1] = "sect" /\ st.out[3][3] = S("<b>")
=============================================================================
