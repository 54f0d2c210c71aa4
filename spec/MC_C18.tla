------------------------------- MODULE MC_C18 -------------------------------
(* C18: end-tag normalization rejects exactly what cannot be balanced. *)
EXTENDS NormalizeSession
A == S("a")
B == S("b")
G == << <<<<"open", A>>, <<"close">>>>, <<<<"open", B>>, <<"close">>>>, <<<<"open", A>>, <<"xclose">>>>,
        <<<<"end", A>>>>, <<<<"end", B>>>>, <<<<"end", S("A")>>>>, <<<<"text", S("x")>>>>,
        <<<<"open", <<>>>>, <<"close">>>>, <<<<"end", <<>>>>>> >>
=============================================================================
