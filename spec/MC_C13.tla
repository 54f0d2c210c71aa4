------------------------------- MODULE MC_C13 -------------------------------
(* C13: undefined references are always rejected, and named. *)
EXTENDS ParserSession
T == << S("<r>"), S("<r q=\""), S("\">"), S("<r><![RCDATA["), S("]]>"), S("<r><!["), S("[x]]>"), S("&"), S("&u;"), S("&lt;"), S("x"), S(" "),
        S("%p;"), S("#x110000"), S("<![INCLUDE["), S("<![CDATA["), S("<!-- "), S(" -->"), S("#f"), S("<?"), S(">"), S("</r>") >>
Ents == << <<S("lt"), S("<")>> >>
C == << [DefaultCfg EXCEPT !.ents = Ents, !.sect = "all"], [DefaultCfg EXCEPT !.sect = "all"], [DefaultCfg EXCEPT !.sect = "keep", !.trim = FALSE, !.ents = Ents],
        [DefaultCfg EXCEPT !.sect = "all", !.pents = << <<S("u"), S("CDATA")>>, <<S("lt"), S("IGNORE")>> >>] >>
F == << <<<<1>>, <<22>>>>, <<<<2>>, <<3>>>>, <<<<4>>, <<5, 9>>>>, <<<<6>>, <<7>>>>, <<<<1, 15>>, <<5>>>>, <<<<15>>, <<5, 1>>>>, <<<<1, 16>>, <<5>>>>, <<<<1, 17>>, <<18>>>> >>
\* (a definition for the other kind of reference is of no use)
\* only text, references and INCLUDE sections: an undefined reference makes the parse fail, and by that name
TextOnly == OnlyToks({9, 10, 11, 12}) /\ frame \in {1, 5, 6}
FirstUndef == LET U == {i \in 1..Len(Body) : Body[i] = 9 \/ (Body[i] = 10 /\ Cfg.ents = <<>>)} IN IF U = {} THEN 0 ELSE MinOf(U)
UndefinedRejected ==
   Final /\ TextOnly =>
      (FirstUndef # 0) = (st.phase = "err" /\ st.ek = "entity" /\ st.en = (IF Body[FirstUndef] = 9 THEN <<"u">> ELSE S("lt")))
\* an entity error names a name that occurs in the source after "&" or "%"
NeverInvented == Final /\ st.ek = "entity" => /\ Contains(Src, <<"&">> \o st.en) \/ Contains(Src, <<"%">> \o st.en)
                                              /\ LookupIdx(Cfg.ents, st.en) = {}
                                              /\ At(Src, st.lo + 1, st.en)
=============================================================================
