----------------------------- MODULE MC_BigViews -----------------------------
(***************************************************************************)
(* C28: fragments that grow without bound, detached, passed around and     *)
(* changed; what is seen on the way in closed form, which TLC checks for   *)
(* small members.                                                          *)
(***************************************************************************)
EXTENDS SgmlViews, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Op(f) == <<f>>
Round == <<Op("clone"), Op("vec"), Op("own"), Op("iter"), Op("drop"), Op("refs"), Op("ownEach"), Op("slice")>>
Apart == <<Op("ownEach"), Op("drop"), Op("own"), Op("vec")>>
Fam(nm, ev, ops, seen) == [name |-> nm, ev |-> ev, ops |-> ops, seen |-> [k \in 1..Len(ops) |-> seen]]
Quiet(nm, ev, ops) == Fam(nm, ev, ops, ev)
\* an operation between detaching and looking again
Then(nm, ev, op, after) == [name |-> nm, ev |-> ev, ops |-> <<Op("own"), Op("drop"), op, Op("clone")>>, seen |-> <<ev, ev, after, after>>]
I(n) == O(n) \o C
P == << <<"pi", S("<?p>")>>, <<"decl", S("D"), S("x")>>, <<"sect", S("CDATA"), S("<")>> >>
N == 16
Family(k, n) ==
   CASE k = 1 -> Quiet("many of every kind", Many(O("a") \o A("k", "v") \o A0("b") \o C \o T("x&") \o P \o Z("a") \o O("c") \o X, n), Round)
     [] k = 2 -> Quiet("many of every kind, one by one", Many(O("a") \o A("k", "v") \o A0("b") \o C \o T("x&") \o P \o Z("a") \o O("c") \o X, n), Apart)
     [] k = 3 -> Quiet("long strings", << <<"open", Many(S("ab"), n)>>, <<"attr", Many(S("c"), n), Many(S("v "), n)>>, <<"attr0", Many(S("d"), n)>>, <<"close">>, <<"text", Many(<<"ue9", "<">>, n)>>, <<"pi", Many(S("?>"), n)>>,
                       <<"decl", Many(S("D"), n), Many(S("<>"), n)>>, <<"sect", Many(S(" K"), n), Many(S("]]>"), n)>>, <<"end", Many(S("ab"), n)>> >>, Round)
     [] k = 4 -> Quiet("long strings, one by one", << <<"decl", Many(S("D"), n), <<>>>>, <<"open", Many(S("ab"), n)>>, <<"attr", Many(S("c"), n), Many(<<"u1f600">>, n)>>, <<"close">>, <<"text", Many(S("&lt;"), n)>>, <<"sect", Many(S(" "), n), Many(S("x"), n)>> >>, Apart)
     [] k = 5 -> Quiet("each its own", Each(n, LAMBDA i : << <<"open", Nm("e", i)>>, <<"attr", Nm("k", i), Nm("v", i)>>, <<"close">>, <<"text", Nm(" ", i)>>, <<"end", Nm("e", i)>> >>), Round)
     [] k = 6 -> Quiet("odd order", Many(Z("a") \o T("") \o C \o A("x", "") \o X \o O(""), n), Round)
     [] k = 7 -> Quiet("empty strings", Many(T("") \o << <<"decl", <<>>, <<>>>>, <<"sect", <<>>, <<>>>>, <<"pi", <<>>>>, <<"attr", <<>>, <<>>>> >>, n), Apart)
     [] k = 8 -> Quiet("nested", Many(I("a"), n) \o T("x") \o Many(Z("a"), n), Round)
     [] k = 9 -> Then("normalized", Many(I("a") \o T("x"), n), Op("norm"), Many(I("a") \o T("x") \o Z("a"), n))
     [] k = 10 -> Then("normalized from XML", Many(O("a") \o A("k", "v") \o X, n), Op("norm"), Many(O("a") \o A("k", "v") \o C \o Z("a"), n))
     [] k = 11 -> Then("not normalized", Many(I("a"), n) \o Z("b"), Op("norm"), Many(I("a"), n) \o Z("b"))
     [] k = 12 -> Then("the last one set", Many(T("x"), n), <<"set", n - 1, <<"text", S("y")>>>>, Many(T("x"), n - 1) \o T("y"))
     [] k = 13 -> Then("one beyond set", Many(T("x"), n), <<"set", n, <<"text", S("y")>>>>, Many(T("x"), n))
     [] k = 14 -> Then("set in the middle", Many(T("x") \o I("a"), n) \o T("y") \o Many(Z("a"), n), <<"set", 3 * n, <<"close">>>>, Many(T("x") \o I("a"), n) \o C \o Many(Z("a"), n))
     [] k = 15 -> Then("edited at the end", Many(T("x"), n), <<"edit", << <<"ins", n, <<"text", S("z")>>>>, <<"del", n - 1>>, <<"ins", 0, <<"close">>>> >>>>, C \o Many(T("x"), n - 1) \o T("z"))
     [] k = 16 -> Then("every one removed", Many(T("x"), n), <<"edit", [i \in 1..n |-> <<"del", n - i>>]>>, <<>>)
VARIABLES fam, n, got
vars == <<fam, n, got>>
Sizes == 1..4 \cup {17, 65, 300, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ got = <<>>
Make == got = <<>> /\ got' = Family(fam, n) /\ UNCHANGED <<fam, n>>
Spec == Init /\ [][Make]_vars
Small == got # <<>> /\ n <= 17
ClosedForm == Small => got.seen = VRun(got.ev, got.ops, 1)
Report == got # <<>> => PrintT(ToJson(<<got.ev, got.ops, got.seen>>))
ASSUME PrintT(ToJson([sources |-> <<>>]))
Alias == [name |-> Family(fam, 1).name, n |-> n, got |-> got, want |-> IF Small THEN VRun(got.ev, got.ops, 1) ELSE <<>>]
=============================================================================
