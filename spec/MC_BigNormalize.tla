--------------------------- MODULE MC_BigNormalize ---------------------------
(***************************************************************************)
(* C17, C18: fragments that grow without bound, and what normalizing them  *)
(* yields in closed form, which TLC checks for small members.              *)
(***************************************************************************)
EXTENDS SgmlNormalize, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Prop == IOEnv.PROP

I(n) == O(n) \o C
P == << <<"pi", S("<?p>")>> >>
Same == <<>>
Fam(p, nm, ev, out) == [p |-> p, name |-> nm, ev |-> ev, ok |-> TRUE, out |-> IF out = Same THEN ev ELSE out, errs |-> <<>>]
Rej(nm, ev, errs) == [p |-> <<"C18">>, name |-> nm, ev |-> ev, ok |-> FALSE, out |-> <<>>, errs |-> errs]
Unpaired(n) == <<"unpaired", S(n)>>
Empty == <<"empty", <<>>>>
N == 22
Family(k, n) ==
   CASE k = 1 -> Fam(<<"C17">>, "items without end tags", I("l") \o Many(I("i") \o T("x"), n) \o Z("l"), I("l") \o Many(I("i") \o T("x") \o Z("i"), n) \o Z("l"))
     [] k = 2 -> Fam(<<"C17">>, "nothing closed", Many(I("a") \o A("x", "y") \o T(" "), 0) \o Many(I("a"), n), Many(I("a") \o Z("a"), n))
     [] k = 3 -> Fam(<<"C17", "C18">>, "nested and closed", Many(I("a"), n) \o T("x") \o Many(Z("a"), n), Same)
     [] k = 4 -> Fam(<<"C17", "C18">>, "only the outer ones closed", Many(I("a"), n) \o Many(I("b") \o T("x"), n) \o Many(Z("a"), n), Many(I("a"), n) \o Many(I("b") \o T("x") \o Z("b"), n) \o Many(Z("a"), n))
     [] k = 5 -> Fam(<<"C17", "C18">>, "every second closed", Many(I("a") \o I("b"), n) \o Many(Z("a"), n), Many(I("a") \o I("b") \o Z("b"), n) \o Many(Z("a"), n))
     [] k = 6 -> Fam(<<"C17">>, "XML closings", I("r") \o Many(O("a") \o A("k", "v") \o X, n) \o Z("r"), I("r") \o Many(O("a") \o A("k", "v") \o C \o Z("a"), n) \o Z("r"))
     [] k = 7 -> Fam(<<"C17">>, "blanks before the place", I("r") \o Many(I("a") \o T("x") \o T(" ") \o T("\n"), n), I("r") \o Z("r") \o Many(I("a") \o T("x") \o Z("a") \o T(" ") \o T("\n"), n))
     [] k = 8 -> Fam(<<"C17">>, "many blanks before the place", I("a") \o T("x") \o Many(T(" ") \o T("") \o T("\t"), n) \o I("b") \o Many(T(" "), n),
                     I("a") \o T("x") \o Z("a") \o Many(T(" ") \o T("") \o T("\t"), n) \o I("b") \o Z("b") \o Many(T(" "), n))
     [] k = 9 -> Fam(<<"C17">>, "a long blank before the place", I("a") \o T("x") \o Tq(Many(<<" ", "\n">>, n)) \o I("b") \o Tq(Many(S(" "), n) \o S("x")), I("a") \o T("x") \o Z("a") \o Tq(Many(<<" ", "\n">>, n)) \o I("b") \o Tq(Many(S(" "), n) \o S("x")) \o Z("b"))
     [] k = 10 -> Fam(<<"C17">>, "many texts", I("a") \o Many(T("x") \o T(" ") \o P, n) \o I("b") \o Z("b"), I("a") \o Many(T("x") \o T(" ") \o P, n) \o Z("a") \o I("b") \o Z("b"))
     [] k = 11 -> Fam(<<"C17">>, "many attributes", O("a") \o Many(A("k", "v") \o A0("a"), n) \o C \o T("x") \o I("b") \o Z("b"), O("a") \o Many(A("k", "v") \o A0("a"), n) \o C \o T("x") \o Z("a") \o I("b") \o Z("b"))
     [] k = 12 -> Fam(<<"C17">>, "a closed element with many omitted", Many(I("l") \o Many(I("i") \o T("x") \o I("j"), 3) \o Z("l"), n), Many(I("l") \o Many(I("i") \o T("x") \o Z("i") \o I("j") \o Z("j"), 3) \o Z("l"), n))
     [] k = 13 -> Fam(<<"C17", "C18">>, "each its own name", Each(n, LAMBDA i : << <<"open", Nm("k", i)>>, <<"close">> >>) \o Z("k1"),
                      << <<"open", S("k1")>>, <<"close">> >> \o Flat([i \in 1..(n - 1) |-> << <<"open", Nm("k", i + 1)>>, <<"close">>, <<"end", Nm("k", i + 1)>> >>]) \o Z("k1"))
     [] k = 14 -> Fam(<<"C17", "C18">>, "each its own name, nested", Flat([i \in 1..n |-> << <<"open", Nm("k", i)>>, <<"close">> >>]) \o Flat([i \in 1..n |-> << <<"end", Nm("k", n + 1 - i)>> >>]), Same)
     [] k = 15 -> Fam(<<"C17">>, "long names", << <<"open", Many(S("ab"), n)>>, <<"close">>, <<"open", Many(S("ab"), n) \o S("c")>>, <<"close">> >> \o T("x") \o << <<"end", Many(S("ab"), n)>> >>,
                      << <<"open", Many(S("ab"), n)>>, <<"close">>, <<"open", Many(S("ab"), n) \o S("c")>>, <<"close">> >> \o T("x") \o << <<"end", Many(S("ab"), n) \o S("c")>>, <<"end", Many(S("ab"), n)>> >>)
     [] k = 16 -> Rej("an end tag too many", Many(I("a"), n) \o Many(Z("a"), n + 1), <<Unpaired("a")>>)
     [] k = 17 -> Rej("an end tag of another name", Many(I("a"), n) \o Z("A") \o Many(Z("a"), n), <<Unpaired("A")>>)
     [] k = 18 -> Rej("closed from outside", Many(I("a") \o Many(I("b"), 2) \o Z("a"), n) \o Z("b"), <<Unpaired("b")>>)
     [] k = 19 -> Rej("an empty end tag late", Many(I("a") \o T("x"), n) \o << <<"end", <<>>>> >>, <<Empty, <<"unpaired", <<>>>>>>)
     [] k = 20 -> Rej("an empty start tag deep inside", Many(I("a"), n) \o << <<"open", <<>>>>, <<"close">> >> \o Many(Z("a"), n), <<Empty>>)
     [] k = 21 -> Rej("the end tag of an XML closing", Many(O("a") \o X, n) \o Z("a"), <<Unpaired("a")>>)
     [] k = 22 -> Rej("an empty end tag for many", Many(I("a"), n) \o Many(<< <<"end", <<>>>> >>, n), <<Empty, <<"unpaired", <<>>>>>>)

VARIABLES fam, n, read, ev, st, want
vars == <<fam, n, read, ev, st, want>>
Mine(f) == \E k \in 1..Len(f.p) : f.p[k] = Prop
Sizes == 1..4 \cup {7, 17, 33, 65, 129, 300, Depth}
Init == fam \in {k \in 1..N : Mine(Family(k, 1))} /\ n \in Sizes /\ read = FALSE /\ ev = <<>> /\ st = NInit /\ want = <<>>
Start == ~read /\ read' = TRUE /\ UNCHANGED <<fam, n, st>>
         /\ LET f == Family(fam, n) IN ev' = f.ev /\ want' = IF f.ok THEN <<"ok", f.out>> ELSE <<"err", f.errs>>
\* the small ones are normalized here
Small == n <= 4
Step1 == read /\ Small /\ ~NRead(ev, st) /\ st' = NStep(ev, st) /\ UNCHANGED <<fam, n, read, ev, want>>
Spec == Init /\ [][Start \/ Step1]_vars
Done == read /\ Small /\ NRead(ev, st)
ClosedForm == Done => IF NFails(ev, st) THEN want[1] = "err" /\ {want[2][k] : k \in 1..Len(want[2])} = NErrors(ev, st)
                      ELSE want = <<"ok", NResult(ev, st)>>
Report == read /\ st = NInit => PrintT(ToJson(<<ev>> \o want))
ASSUME PrintT(ToJson([groups |-> <<>>]))
Alias == [name |-> Family(fam, 1).name, n |-> n, ev |-> ev, want |-> want, got |-> IF Done THEN IF NFails(ev, st) THEN <<"err">> ELSE <<"ok", NResult(ev, st)>> ELSE <<>>]
=============================================================================
