------------------------------- MODULE MC_C17 -------------------------------
(* C17: end-tag normalization yields exactly the intended balanced fragment. *)
EXTENDS NormalizeSession
A == S("a")
B == S("b")
G == << <<<<"open", A>>, <<"close">>>>, <<<<"open", B>>, <<"close">>>>, <<<<"open", A>>, <<"xclose">>>>,
        <<<<"open", B>>, <<"attr", S("k"), S("v")>>, <<"attr0", A>>, <<"close">>>>,
        <<<<"end", A>>>>, <<<<"end", B>>>>, <<<<"text", S("x")>>>>, <<<<"text", <<" ", "\n">>>>>>, <<<<"pi", S("<?p>")>>>>,
        <<<<"text", <<>>>>>>, <<<<"text", <<"u" \o "a0">>>>>> >>
=============================================================================
