------------------------------- MODULE MC_C10 -------------------------------
(* C10: name normalization changes all tag and attribute names and nothing else. *)
EXTENDS ParserSession
T == << S("<a"), S("<A"), S("</"), S(">"), S(" "), S("Bb"), S("='Vv'"), S("Tt"), <<"u1c5">>, <<"udf">>, <<"u3a3">>,
        <<"u10400">>, <<"ufb01">>, S("<?Pp>"), S("=Uu"), <<"u131">>, <<"uc9">>, S("<!Dd "), S("<![CData[") >>
C == << DefaultCfg, [DefaultCfg EXCEPT !.names = "lower"], [DefaultCfg EXCEPT !.names = "upper"] >>
F == << <<<<1>>, <<4>>>>, <<<<2, 5>>, <<4>>>>, <<<<1, 4, 3>>, <<4>>>>, <<<<>>, <<>>>>, <<<<18>>, <<4, 1, 4>>>> >>
NamesOnly ==
   Final /\ cfg # 1 => LET p == ParseToks(toks, C[1]) IN
      /\ POk(st) = POk(p)
      /\ POk(st) => st.out = MapNames(p.out, LAMBDA n : IF cfg = 2 THEN ToLower(n) ELSE ToUpper(n))
CaseTwins == Final /\ cfg # 1 /\ frame = 3 /\ OnlyToks({6}) /\ POk(st) =>
      st.out = ParseToks([i \in 1..Len(toks) |-> IF toks[i] = 1 THEN 2 ELSE toks[i]], Cfg).out
=============================================================================
