------------------------------- MODULE MC_C14 -------------------------------
(* C14: parse errors point at the right place. *)
EXTENDS ParserSession
T == << S("<a>"), S("<a"), S(">"), S(" "), S("x"), S("=\""), S("\""), S("="), S("<![CDATA["), S("]]>"), S("<!-- "), S("--"), S("<!D "), S("&u;"),
        <<"\n">>, <<"u984c">>, S("<![INCLUDE["), S("'"), S("["), S("!"), S("<!") >>
C == << [DefaultCfg EXCEPT !.sect = "all"], DefaultCfg >>
F == << <<<<>>, <<>>>>, <<<<1, 15>>, <<>>>>, <<<<2>>, <<3>>>>, <<<<1, 17>>, <<10>>>>, <<<<13>>, <<>>>> >>
InRange == Final /\ ~POk(st) => 1 <= st.lo /\ st.lo <= st.hi /\ st.hi <= Len(Src) + 1
\* Everything before the reported place was acceptable: the text cut there (and closed) is not rejected earlier.
PrefixAcceptable ==
   Final /\ ~POk(st) /\ st.ek = "syntax" /\ st.lo > 1 =>
      LET p == Parse(Slice(Src, 1, st.lo), Cfg) IN POk(p) \/ p.hi >= st.lo
=============================================================================
