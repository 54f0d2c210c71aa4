------------------------------ MODULE MC_Report ------------------------------
(* C14: the message for every error of documents made of long and short lines. *)
EXTENDS ParserSession
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
T == << S("<a>"), S("&u;"), S("<a ?>"), S("<![X["), S("<!--"), S("<!D>"), <<"\n">>, <<"\r", "\n">>, <<"\r">>, <<"u2028">>, <<"u85">>, S("x"), <<"\t">>,
        Times(S("x"), 27), Times(S("ab "), 40), Times(<<"u984c">>, 29), Times(<<"ue9", "u1f600">>, 55) >>
C == << [DefaultCfg EXCEPT !.sect = "all"] >>
F == << <<<<>>, <<>>>>, <<<<7, 15>>, <<2, 12, 8, 12>>>>, <<<<1>>, <<4, 17, 14>>>> >>
InRange == Final /\ ~POk(st) => 1 <= st.lo /\ st.lo <= st.hi /\ st.hi <= Len(Src) + 1
=============================================================================
