------------------------------- MODULE MC_C33 -------------------------------
(* C33: text in one piece can be borrowed, from wherever values are read. *)
EXTENDS DeserSession
As == <<A("a", "1"), A("b", ""), A0("c"), A("c", " x y ")>>
Ks == <<T("x"), T(" "), << <<"text", <<>>>> >>, E("a", T("7")), E("b", T("x") \o T("y")), E("c", E("i", T("2")) \o << <<"text", <<>>>> >>), E("b", <<>>), E("a", T("p") \o E("b", T("q"))), << <<"pi", S("<?p>")>> >>>>
Ref == <<"ref">>
Word == <<"enum", << <<S("a"), "newtype", Ref>>, <<S("b"), "struct", <<D("$value", Ref)>>>>, <<S("c"), "tuple", <<Ref, Ref>>>> >>>>
Ts == <<Struct(<<D("a", Ref), F("$value", Ref)>>), Struct(<<D("a", Ref), D("b", Ref), D("c", Ref)>>), Struct(<<D("a", Seq1(Ref)), D("b", Opt(Ref)), D("c", <<"new", Ref>>)>>),
        <<"map", Ref>>, Ref, Opt(<<"new", Ref>>), Struct(<<F("$value", Seq1(Ref))>>), Struct(<<F("$value", Seq1(Word))>>), Struct(<<D("a", <<"tuple", <<Ref, Ref>>>>), D("b", Str)>>),
        Struct(<<F("$value", Opt(Ref)), D("c", Opt(Ref))>>)>>
\* the type with strings that may be copied
RECURSIVE Copied(_)
Copied(T1) ==
   CASE T1[1] = "ref" -> Str
     [] T1[1] \in {"opt", "new", "seq", "map"} -> <<T1[1], Copied(T1[2])>>
     [] T1[1] = "tuple" -> <<"tuple", [k \in 1..Len(T1[2]) |-> Copied(T1[2][k])]>>
     [] T1[1] = "struct" -> Struct([k \in 1..Len(T1[2]) |-> [T1[2][k] EXCEPT ![2] = Copied(@)]])
     [] T1[1] = "enum" -> <<"enum", [k \in 1..Len(T1[2]) |-> LET v == T1[2][k] IN
                              CASE v[2] = "newtype" -> <<v[1], "newtype", Copied(v[3])>>
                                [] v[2] = "tuple" -> <<v[1], "tuple", Copied(<<"tuple", v[3]>>)[2]>>
                                [] v[2] = "struct" -> <<v[1], "struct", Copied(Struct(v[3]))[2]>>
                                [] OTHER -> v]>>
     [] OTHER -> T1
AsCopied == Outcome(Doc, Copied(Types[ty]))
\* what is borrowed is what would be copied
SameText == Finished /\ out[1] = "ok" => AsCopied = out
\* only one text is always in one piece
Texts == {i \in 1..Len(Doc) : Doc[i][1] = "text" /\ Doc[i][2] # <<>>}
RefusedOnlyForSeveral == Finished /\ out[1] = "err" /\ AsCopied[1] = "ok" => Cardinality(Texts) > 1
NeverOpen == Finished /\ out[1] = "any" => AsCopied[1] = "any"
=============================================================================
