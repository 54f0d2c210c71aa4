------------------------------- MODULE MC_C02 -------------------------------
(* C02: every successful parse yields a well-formed event stream. *)
EXTENDS ParserSession
T == << S(" "), S("<!-- c -->"), S("<?p>"), S("<![CDATA[k]]>"), S("<!D d>"),
        S("<a"), S(">"), S("/>"), S(" y"), S("=1"), S("</a>"), S("t"), S("<![INCLUDE["), S("]]>"), S("<>") >>
C == << [DefaultCfg EXCEPT !.sect = "all"], [DefaultCfg EXCEPT !.sect = "keep", !.trim = FALSE] >>
F == << <<<<>>, <<>>>>, <<<<6>>, <<>>>>, <<<<6, 7>>, <<>>>> >>
PrologToks == 1..5
Sound == /\ StructuredPrefix(st.out, 1, FALSE)
         /\ Final /\ POk(st) => WellFormed(st.out)
NoContentRejected == Final /\ (\A i \in 1..Len(toks) : toks[i] \in PrologToks) => ~POk(st)
=============================================================================
