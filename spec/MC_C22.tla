------------------------------- MODULE MC_C22 -------------------------------
(* C22: structs and maps see every attribute and child element once. *)
EXTENDS DeserSession
As == <<A("a", "1"), A("b", "2"), A("x:a", "9"), A("A", "0")>>
Ks == <<E("a", T("3")), E("b", T("4")), E("n", E("a", T("5"))), EA("n", A("a", "6"), E("n", E("a", T("7")) \o E("z", <<>>)) \o E("z", E("a", T("8")))),
        EA("x:b", A("a", "0"), E("a", T("1")) \o E("z", E("n", T("y"))) \o E("b", <<>>)), T("t"), E("n", <<>>), E("B", T("4"))>>
Sub == Struct(<<F("a", I8), F("n", Opt(Struct(<<D("a", I32)>>)))>>)
Ts == <<Struct(<<F("a", I8), F("b", Opt(I8))>>),
        Struct(<<F("a", I8), D("b", I8), F("n", Opt(Sub))>>),
        Struct(<<F("n", Sub), D("a", Str), D("b", <<"ignored">>)>>),
        <<"map", Str>>, <<"any">>, <<"map", <<"any">>>>, Struct(<<D("n", <<"map", I8>>)>>),
        Struct(<<D("a", I8), D("A", I8), F("b", Opt(I8)), D("B", I8)>>)>>
UnknownAttr == IF ty = 8 THEN {3} ELSE {3, 4}
UnknownKid == IF ty = 8 THEN {5, 6} ELSE {5, 6, 8}
Known(ts, u) == SelectSeq(ts, LAMBDA t : t \notin u)
IsStruct == Types[ty][1] = "struct"
\* what is unknown makes no difference
UnknownIgnored == Done /\ IsStruct => out = Outcome(DocOf(Known(at, UnknownAttr), Known(kids, UnknownKid)), Types[ty])
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* nor does the order
OrderIrrelevant == Done /\ IsStruct => out = Outcome(DocOf(Reverse(at), Reverse(kids)), Types[ty])
Key(g) == g[1][2]
Occurrences(n) == Cardinality({i \in 1..Len(at) : Key(AttrGroups[at[i]]) = n}) + Cardinality({i \in 1..Len(kids) : KidGroups[kids[i]] # T("t") /\ Key(KidGroups[kids[i]]) = n})
\* each field takes the one occurrence of its name; a required one without, or any with several, is an error
OncePerField == Done /\ IsStruct =>
   LET fs == Types[ty][2] IN
   /\ ((\E k \in 1..Len(fs) : Occurrences(fs[k][1]) > 1 \/ (Occurrences(fs[k][1]) = 0 /\ fs[k][3] = "req" /\ fs[k][2][1] # "opt")) => out = Err)
   /\ (out[1] = "ok" => \A k \in 1..Len(fs) : (Occurrences(fs[k][1]) = 0) = (out[2][2][k] \in {<<"none">>, <<"default">>}))
\* a map has one entry for each, in order
AllEntries == Done /\ Types[ty][1] = "map" /\ out[1] = "ok" =>
   Len(out[2][2]) = Len(at) + Cardinality({i \in 1..Len(kids) : KidGroups[kids[i]] # T("t")})
=============================================================================
