------------------------------- MODULE MC_C12 -------------------------------
(* C12: parameter entities are expanded in section status keywords only. *)
EXTENDS ParserSession
T == << S("<r q='"), S("'>"), S("<r><!["), S("[%inc;]]>"), S("%"), S("inc"), S(";"), S(" "), S("#"), S("cd"), S("rec"),
        S("&lt;"), S("INCLUDE"), S("none"), S("<!D "), S("><r>"), S("r") , S("<r>") >>
P == << <<S("inc"), S("INCLUDE")>>, <<S("cd"), S("CDATA")>>, <<S("rec"), S("%inc;")>>, <<S("none"), <<>>>>, <<S("#cd"), S("RCDATA")>>,
        <<S("r"), <<"r">>>>, <<S("rr"), S("CDATA")>> >>
Ents == << <<S("lt"), S("INCLUDE")>> >>
C == << [DefaultCfg EXCEPT !.sect = "keep", !.pents = P, !.ents = Ents, !.trim = FALSE],
        [DefaultCfg EXCEPT !.sect = "all", !.pents = P, !.ents = Ents],
        [DefaultCfg EXCEPT !.sect = "all", !.ents = P] >>
F == << <<<<3>>, <<4>>>>, <<<<3, 5>>, <<4>>>>, <<<<1>>, <<2>>>>, <<<<18>>, <<>>>>, <<<<15>>, <<16>>>> >>
\* names defined for general references are of no use to keywords
OtherTable == Final /\ cfg = 3 /\ frame \in {1, 2} =>
   LET p == ParseToks(toks, [Cfg EXCEPT !.ents = <<>>]) IN POk(p) = POk(st) /\ p.out = st.out
\* outside keywords the setting has no effect at all
KeywordsOnly == Final /\ frame \in {3, 4, 5} =>
   LET p == ParseToks(toks, [Cfg EXCEPT !.pents = <<>>]) IN POk(p) = POk(st) /\ p.out = st.out
=============================================================================
