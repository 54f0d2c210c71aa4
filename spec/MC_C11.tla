------------------------------- MODULE MC_C11 -------------------------------
(* C11: references are expanded exactly once, everywhere they apply. *)
EXTENDS ParserSession
T == << S("<r>"), S("<r q=\""), S("\">"), S("<r><![RCDATA["), S("]]>"), S("&"), S("#"), S("x"), S("65"), S(";"), S("lt"),
        S(" "), S("6b"), S("rec"), S("#1114112"), S("%"), <<"ue9">> >>
Ents == << <<S("lt"), S("<")>>, <<S("rec"), S("&lt;&#65;")>>, <<S("#1114112"), S("[n]")>>, <<S("#lt"), S("[f]")>>, <<S("x"), <<>>>>,
           <<S("#x"), S("[x]")>>, <<S("#xlt"), S("[xlt]")>>, <<<<"ue9">>, S("e")>>, <<S("#rec"), S("&")>>, <<S("#x65"), S("wrong")>>, <<S("#65"), S("wrong")>> >>
C == << [DefaultCfg EXCEPT !.ents = Ents, !.trim = FALSE, !.sect = "all"] >>
F == << <<<<1>>, <<>>>>, <<<<1, 6>>, <<8>>>>, <<<<2>>, <<3>>>>, <<<<2, 6>>, <<3>>>>, <<<<4, 6>>, <<5>>>> >>
RawBody == Flat(Body, 1)
Value == LET a == OfKind(st.out, {"attr"})  t == OfKind(st.out, {"text"})
         IN IF a # <<>> THEN a[1][3] ELSE IF t # <<>> THEN t[1][2] ELSE <<>>
\* Declarative reading: the text splits into literal characters and references; each is replaced on its own.
\* Only tokens that cannot combine with their neighbours are used: "&" "lt" ";" and "&" "#1114112" ";"
RECURSIVE Pieces(_, _)
Pieces(ts, i) ==
   IF i > Len(ts) THEN <<>>
   ELSE IF i + 2 <= Len(ts) /\ ts[i] = 6 /\ ts[i + 1] \in {11, 14, 15} /\ ts[i + 2] = 10
   THEN (CASE ts[i + 1] = 11 -> <<"<">> [] ts[i + 1] = 14 -> S("&lt;&#65;") [] ts[i + 1] = 15 -> S("[n]")) \o Pieces(ts, i + 3)
   ELSE Toks[ts[i]] \o Pieces(ts, i + 1)
Plain(ts) == \A i \in 1..Len(ts) : ts[i] = 6 => i + 2 <= Len(ts) /\ ts[i + 1] \in {11, 14, 15} /\ ts[i + 2] = 10
All == SubSeq(toks, 2, Len(toks) - (IF frame \in {1} THEN 0 ELSE 1))
ExpandedOnce == Final /\ POk(st) /\ frame \in {1, 3, 4, 5} /\ OnlyToks(6..17) /\ Plain(All) => Value = Pieces(All, 1)
NoReferenceNoChange == Final /\ POk(st) /\ frame \in {1, 3} /\ OnlyToks(7..17) => Value = RawBody
=============================================================================
