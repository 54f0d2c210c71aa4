----------------------------- MODULE MC_Message -----------------------------
(* C32: the message for every error of documents in which constructs are begun inside one another, on one line or several. *)
EXTENDS ParserSession
T == << S("<a"), S(">"), S(" b"), S("="), S("'"), S("\""), S("</a"), S("<!D"), S("["), S("]"), S("<!-"), S("-"), S("<![INCLUDE["), S("<![IGNORE["), S("<![RCDATA["),
        S("<!["), S("]]>"), S("<?"), S("&u"), S("&#9999999;"), S("x"), <<"\n">>, <<"\r", "\n">>, <<"ue9", "\t">>, S("%k;"), <<"\f">>, S("\\") >>
C == << [DefaultCfg EXCEPT !.sect = "all"], [DefaultCfg EXCEPT !.sect = "keep", !.trim = FALSE] >>
F == << <<<<>>, <<>>>>, <<<<1, 2, 21, 22, 13>>, <<>>>>, <<<<8, 3, 9, 22>>, <<23, 2, 1, 2>>>>, <<<<11, 12, 12>>, <<2>>>>, <<<<24, 1, 3, 4>>, <<22, 2>>>>, <<<<7>>, <<>>>>, <<<<14, 14>>, <<17>>>> >>
=============================================================================
