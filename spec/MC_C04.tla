------------------------------- MODULE MC_C04 -------------------------------
(* C04: character data is complete, and only outer white space is trimmed. *)
EXTENDS ParserSession
T == << S("<a>"), S("x"), S(" "), <<"\n">>, <<"\t">>, <<"\r">>, <<"\f">>, <<"ua0">>, S("&#32;"), S("&sp;"),
        S("<1"), S("]]>"), S("&"), S("<!-- c -->"), S("<b>") >>
Ents == << <<S("sp"), <<" ", "\n">>>> >>
C == << [DefaultCfg EXCEPT !.ents = Ents], [DefaultCfg EXCEPT !.ents = Ents, !.trim = FALSE] >>
F == << <<<<1>>, <<>>>>, <<<<>>, <<>>>> >>
TextToks == 2..13
\* the maximal runs of text of a document, in order
RECURSIVE Runs(_, _, _)
Runs(ts, i, run) ==
   IF i > Len(ts) THEN <<run>>
   ELSE IF ts[i] \in TextToks THEN Runs(ts, i + 1, run \o Toks[ts[i]])
   ELSE <<run>> \o Runs(ts, i + 1, <<>>)
RunText(r) == LET t == IF Cfg.trim THEN Trim(r) ELSE r IN IF t = <<>> THEN <<>> ELSE <<Expand(t, Cfg.ents).out>>
RECURSIVE RunTexts(_, _)
RunTexts(rs, i) == IF i > Len(rs) THEN <<>> ELSE RunText(rs[i]) \o RunTexts(rs, i + 1)
TextComplete ==
   Final /\ frame = 1 /\ (\A i \in 1..Len(Runs(toks, 1, <<>>)) : Expand(Runs(toks, 1, <<>>)[i], Cfg.ents).ok) =>
      /\ POk(st)
      /\ [i \in 1..Len(OfKind(st.out, {"text"})) |-> OfKind(st.out, {"text"})[i][2]] = RunTexts(Runs(toks, 1, <<>>), 1)
=============================================================================
