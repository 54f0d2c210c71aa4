------------------------------- MODULE MC_C24 -------------------------------
(* C24: enums select the variant named by the markup. *)
EXTENDS DeserSession
As == <<A("a", "u"), A("a", "n"), A("z", "u")>>
\* one element or text that makes up an enum's value ...
Inside == <<T("u"), T("n"), T(" u"), E("u", <<>>), EA("u", A("q", "1"), E("n", T("5"))), E("n", T("5")), EA("n", A("x", "6"), <<>>), E("t", T("1")), E("t", T("2")),
            EA("s", A("x", "1"), E("y", T("2"))), E("s", T("7")), E("l", E("n", T("1")) \o E("u", <<>>)), E("l", <<>>), E("w", T("u")), E("w", E("n", T("3"))), E("x:u", <<>>), E("y:n", T("5")), T("y:n"), E("U", <<>>), E("N", T("5")), T("N"),
            E("p", EA("i", A("x", "1"), <<>>) \o E("i", E("x", T("2"))))>>
\* ... as the field "a", as an item, or as the content
Ks == Inside \o [i \in 1..Len(Inside) |-> E("a", Inside[i])] \o << E("k", T("8")), E("a", E("t", T("1")) \o E("t", T("2"))), EA("a", A("x", "u"), T("u")), E("a", E("q", T("4"))), E("a", E("q", T(" 4") \o << <<"text", <<>>>> >>)), E("a", E("q", T("4") \o E("k", T("5")))) >>
N == Len(Inside)
XY == <<F("x", Opt(I8)), D("y", I8)>>
In0 == <<"enum", << <<S("u"), "unit">>, <<S("n"), "newtype", I8>> >>>>
En == <<"enum", << <<S("u"), "unit">>, <<S("n"), "newtype", I8>>, <<S("t"), "tuple", <<I8, I8>>>>, <<S("s"), "struct", XY>>,
                   <<S("l"), "newtype", Seq1(In0)>>, <<S("w"), "newtype", In0>>, <<S("p"), "newtype", <<"tuple", <<Struct(XY), Struct(XY)>>>>>>, <<S("q"), "newtype", Seq1(I8)>> >>>>
Es == <<"enum", << <<S("n"), "newtype", Struct(XY)>>, <<S("u"), "newtype", <<"unit">>>>, <<S("s"), "struct", <<D("$value", Str), D("x", I8)>>>>, <<S("t"), "newtype", Opt(Str)>>, <<S("y:n"), "unit">> >>>>
Ts == <<Struct(<<F("a", En), D("k", I8)>>), Struct(<<F("a", Seq1(En)), D("k", I8)>>), Struct(<<F("$value", En), D("z", Str)>>), Struct(<<F("$value", Seq1(En)), D("z", Str)>>),
        Struct(<<D("a", Es), D("k", I8)>>), Struct(<<D("$value", Seq1(Es))>>), Struct(<<D("a", Opt(En)), D("z", In0)>>)>>
\* the same selection as a field, as an item, and as content
Content(i) == Outcome(DocOf(<<>>, <<i>>), Types[3])
Field(i) == Outcome(DocOf(<<>>, <<N + i>>), Types[1])
ItemOf(i) == Outcome(DocOf(<<>>, <<N + i, N + i>>), Types[2])
Items(i) == Outcome(DocOf(<<>>, <<i, i>>), Types[4])
SameEverywhere == \A i \in 1..N :
   /\ Field(i)[1] = Content(i)[1]
   /\ Field(i)[1] = "ok" => /\ Field(i)[2][2][1] = Content(i)[2][2][1]
                            /\ ItemOf(i)[2][2][1] = <<"seq", <<Content(i)[2][2][1], Content(i)[2][2][1]>>>>
   /\ Field(i)[1] = "err" => ItemOf(i) = Err
   /\ Items(i)[1] = "ok" /\ Content(i)[1] = "ok" => Items(i)[2][2][1] = <<"seq", <<Content(i)[2][2][1], Content(i)[2][2][1]>>>>
ASSUME SameEverywhere
\* the variant is the one named
NamedVariant == Done /\ out[1] = "ok" /\ ty \in {3, 4} =>
   LET v == IF ty = 3 THEN out[2][2][1] ELSE IF out[2][2][1][2] = <<>> THEN <<"var", <<>>>> ELSE out[2][2][1][2][1]
   IN kids # <<>> /\ v[2] # <<>> => LET g == KidGroups[kids[1]][1] IN g[1] = "open" => v[2] = g[2]
\* what follows is not disturbed: the field k has the value of its element
FollowersKept == Done /\ out[1] = "ok" /\ ty \in {1, 2, 5} => (out[2][2][2] = <<"int", S("8")>>) = (\E i \in 1..Len(kids) : kids[i] = 2 * N + 1)
=============================================================================
