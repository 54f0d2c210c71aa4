------------------------------- MODULE MC_C01 -------------------------------
(* C01: parsing is total.  Every text over the significant characters and   *)
(* delimiters, under configurations that enable every branch of the parser. *)
EXTENDS ParserSession
T == << S("<"), S(">"), S("!"), S("["), S("]"), S("-"), S("/"), S("?"), S("&"), S("#"), S(";"),
        S("a"), S("\""), S("="), S(" "), S("%"), <<"u984c">>, S("<![CDATA["), S("]]>"), S("--") >>
C == << [DefaultCfg EXCEPT !.sect = "all", !.names = "upper"], DefaultCfg,
        [DefaultCfg EXCEPT !.sect = "keep", !.trim = FALSE] >>
F == << <<<<>>, <<>>>>, <<<<1>>, <<>>>>, <<<<1, 3>>, <<>>>>, <<<<1, 3, 4>>, <<>>>>, <<<<1, 12, 15>>, <<>>>> >>
=============================================================================
