------------------------------- MODULE MC_C25 -------------------------------
(* C25: "$value" fields receive the element's content. *)
EXTENDS DeserSession
As == <<A("a", "1"), A0("b"), A("z", "9")>>
Ks == <<T("x"), T("7"), << <<"text", <<>>>> >>, E("a", T("7")), E("u", <<>>), E("i", E("a", T("2"))), << <<"text", <<" ", "\n">>>> >>, E("a", <<>>), << <<"pi", S("<?p>")>> >>>>
En == <<"enum", << <<S("u"), "unit">>, <<S("7"), "unit">>, <<S("a"), "newtype", Str>>, <<S("x"), "unit">> >>>>
Sub == Struct(<<D("a", I8)>>)
V(T1) == Struct(<<D("a", I8), F("$value", T1), D("b", <<"bool">>)>>)
Ts == <<V(Str), V(I8), V(Opt(Str)), V(Seq1(Str)), V(En), V(Seq1(En)), V(Sub), V(Seq1(Sub)), V(<<"any">>), V(Opt(<<"bool">>)), V(<<"unit">>), V(<<"tuple", <<Str, Str>>>>),
        Struct(<<F("$value", Str)>>), Struct(<<D("$value", <<"char">>)>>), V(Seq1(<<"any">>)), V(<<"map", Str>>), V(<<"new", Str>>)>>
IsTextKid(t) == KidGroups[t][1][1] = "text"
OnlyText == \A i \in 1..Len(kids) : IsTextKid(kids[i])
WholeText == TextOf(Elem(Doc, 1).node)
\* text only: all of it is the value
TextIsValue == Done /\ OnlyText /\ ty \in {1, 17} /\ out[1] = "ok" => out[2][2][2] = IF ty = 1 THEN <<"str", WholeText>> ELSE <<"new", <<"str", WholeText>>>>
\* the same with and without the wrapper, for an element with text only
Inner1(t) == Types[t][2][2][2]
WrapperIrrelevant == Done /\ at = <<>> /\ OnlyText /\ ty \in 1..12 /\ Inner1(ty)[1] \in Scalar \cup {"opt", "unit", "enum"} =>
   LET field == DocOf(<<>>, <<>>)
       inner == << <<"open", S("r")>>, <<"close">> >> \o E("q", Cat(KidGroups, kids, 1)) \o << <<"end", S("r")>> >>
       w == Outcome(inner, Struct(<<F("q", Struct(<<F("$value", Inner1(ty))>>))>>))
       d == Outcome(inner, Struct(<<F("q", Inner1(ty))>>))
   IN /\ w[1] = d[1]
      /\ w[1] = "ok" => w[2][2][1][2][1] = d[2][2][1]
\* with child elements, they are the value, and never fields
ElementsAreValue == Done /\ ~OnlyText /\ out[1] = "ok" /\ ty \in {4, 6, 8, 15} /\ ~(\E i \in 1..Len(kids) : kids[i] = 9) =>
   Len(out[2][2][2][2]) = Cardinality({i \in 1..Len(kids) : ~IsTextKid(kids[i])})
AttributesAreFields == Done /\ out[1] = "ok" /\ ty <= 12 => (out[2][2][1] = <<"default">>) = (\A i \in 1..Len(at) : at[i] # 1)
=============================================================================
