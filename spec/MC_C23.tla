------------------------------- MODULE MC_C23 -------------------------------
(* C23: sequences collect exactly the run of same-named siblings. *)
EXTENDS DeserSession
As == <<A("a", "1")>>
Ks == <<E("a", T("1")), EA("a", A("x", "5"), E("b", T("3")) \o E("b", T("4"))), E("b", T("2")), E("B", T("6")), E("b", E("v", <<>>)), E("x:b", E("a", T("7"))), << <<"text", <<" ", "\n">>>> >>>>
Ev == <<"enum", << <<S("v"), "unit">>, <<S("b"), "newtype", I8>>, <<S("2"), "unit">>, <<S("a"), "tuple", <<I8, I8>>>> >>>>
Item == Struct(<<F("x", Opt(I8)), D("b", Seq1(I8))>>)
Ts == <<Struct(<<F("a", Seq1(I8)), D("b", Seq1(I8))>>),
        Struct(<<D("a", Seq1(Item)), D("b", Seq1(Ev))>>),
        Struct(<<F("a", <<"tuple", <<I8, Item>>>>), D("b", Str)>>),
        Struct(<<D("a", Seq1(Seq1(Str))), F("b", Opt(Seq1(<<"new", Str>>)))>>),
        Struct(<<D("a", Seq1(<<"tuple", <<Str, <<"any">>>>>>)), D("b", <<"any">>)>>),
        Struct(<<D("B", Seq1(I8)), D("b", Seq1(I8)), D("a", <<"ignored">>)>>), Struct(<<F("$value", Seq1(<<"any">>))>>),
        Struct(<<F("$value", <<"tuple", <<Str, Str>>>>), D("a", I8)>>),
        Struct(<<D("$value", Seq1(Ev)), D("a", Seq1(I8))>>),
        <<"map", Seq1(<<"any">>)>>,
        Struct(<<D("a", <<"tuple", <<<<"seq", Str>>, <<"unit">>>>>>), D("x:b", Seq1(Struct(<<F("a", Seq1(I8))>>)))>>)>>
Name(t) == IF KidGroups[t][1][1] = "text" THEN <<>> ELSE KidGroups[t][1][2]
Elems == SelectSeq(kids, LAMBDA t : Name(t) # <<>>)
Pos(n) == {i \in 1..Len(Elems) : Name(Elems[i]) = n}
OneRun(n) == \A i \in Pos(n), j \in Pos(n) : \A k \in i..j : k \in Pos(n)
\* with the fields "a" and "b" both sequences: all the elements of the one run, and an error if there is another
WholeRun == Done /\ ty \in {1, 2} /\ at = <<>> =>
   /\ (~OneRun(S("a")) \/ ~OneRun(S("b")) => out = Err)
   /\ (out[1] = "ok" => \A f \in 1..2 : LET v == out[2][2][f] IN
         IF v = <<"default">> THEN Pos(Types[ty][2][f][1]) = {} ELSE Len(v[2]) = Cardinality(Pos(Types[ty][2][f][1])) /\ v[2] # <<>>)
ExactlyThatMany == Done /\ ty = 3 /\ out[1] = "ok" => Cardinality(Pos(S("a"))) = 2
NeverFromAttributes == Done /\ at # <<>> /\ Types[ty][1] = "struct" =>
   ((\E k \in 1..Len(Types[ty][2]) : Types[ty][2][k][1] = S("a") /\ Types[ty][2][k][2][1] \in {"seq", "tuple"}) => out = Err)
Chunks == Done /\ ty = 5 /\ out[1] = "ok" /\ out[2][2][1] # <<"default">> => 2 * Len(out[2][2][1][2]) = Cardinality(Pos(S("a")))
=============================================================================
