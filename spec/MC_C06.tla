------------------------------- MODULE MC_C06 -------------------------------
(* C06: CDATA and RCDATA content is literal, IGNORE content disappears. *)
EXTENDS ParserSession
T == << S("<r>"), S("<![CDATA["), S("<![RCDATA["), S("<![IGNORE["), S("]]>"), S("x"), S("<b>"), S("&amp;"),
        S("<!["), S("]]"), S(">"), S("<!-- "), S(" "), <<"u984c">>, S("&sp;") >>
Ents == << <<S("amp"), S("&")>>, <<S("sp"), S(" ")>> >>
C == << [DefaultCfg EXCEPT !.ents = Ents, !.sect = "all"], [DefaultCfg EXCEPT !.ents = Ents, !.trim = FALSE, !.sect = "all"],
        [DefaultCfg EXCEPT !.ents = Ents] >>
F == << <<<<1, 2>>, <<>>>>, <<<<1, 3>>, <<>>>>, <<<<1, 4>>, <<>>>>, <<<<1, 2>>, <<5, 6>>>>, <<<<1, 4>>, <<5, 6>>>> >>
\* the section opened by the frame: its body, when it ends at the first "]]>"
BodyStart == Len(Toks[1]) + Len(Toks[toks[2]]) + 1
End == Find(Src, BodyStart, MseClose)
BodyText == Slice(Src, BodyStart, End)
Trimmed == IF Cfg.trim THEN Trim(BodyText) ELSE BodyText
Open == 3      \* the events of <r> come before
Literal == Final /\ POk(st) /\ toks[2] \in {2, 3} =>
   /\ End > 0
   /\ st.out[Open] = <<"text", IF toks[2] = 2 THEN Trimmed ELSE Expand(Trimmed, Cfg.ents).out>>
\* prefix sums of the nesting of "<![" and "]]>" tokens inside an IGNORE section
Nest(t) == CASE t \in {2, 3, 4, 9} -> 1 [] t = 5 -> -1 [] OTHER -> 0
RECURSIVE NestAt(_, _)
NestAt(ts, i) == IF i < 2 THEN 0 ELSE NestAt(ts, i - 1) + Nest(ts[i])
\* (the tokens "]]" ">" side by side spell "]]>" too, so documents with ">" are left to the conformance check)
Closes == {i \in 3..Len(toks) : NestAt(toks, i) = 0 /\ \A j \in 2..i - 1 : NestAt(toks, j) > 0}
IgnoreVanishes == Final /\ toks[2] = 4 /\ ~Has(11) /\ Cfg.sect = "all" =>
   IF Closes = {} THEN ~POk(st)
   ELSE LET p == ParseToks(<<1>> \o SubSeq(toks, MinOf(Closes) + 1, Len(toks)), Cfg)
        IN POk(p) = POk(st) /\ (POk(st) => st.out = p.out)
Unterminated == Final /\ End = 0 => ~POk(st)
=============================================================================
