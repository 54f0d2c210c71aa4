------------------------------- MODULE MC_Nest -------------------------------
(* C17, C18: longer fragments of few kinds of events. *)
EXTENDS NormalizeSession
A == S("a")
B == S("b")
G == << <<<<"open", A>>, <<"close">>>>, <<<<"open", B>>, <<"close">>>>, <<<<"end", A>>>>, <<<<"end", B>>>>, <<<<"text", S(" ")>>>> >>
=============================================================================
