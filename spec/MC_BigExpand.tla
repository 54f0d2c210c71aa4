---------------------------- MODULE MC_BigExpand ----------------------------
(***************************************************************************)
(* C11-C13: texts with references that grow without bound, and what they   *)
(* expand to in closed form, which TLC checks for small members.           *)
(***************************************************************************)
EXTENDS SgmlEntities, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Odd == <<"u1f600", "ue9", "\n">>
Tab == << <<S("lt"), S("<")>>, <<S("rec"), S("&lt;%rec;&#65;")>>, <<S("no"), <<>>>>, <<S("#f"), S("[f]")>> >>
Names(calls) == <<"ok", <<>>, calls>>
Good(nm, src, o, calls) == [name |-> nm, src |-> src, tab |-> Tab, want |-> <<"ok", o, calls>>]
\* the reference from which the expansion fails
Fails(nm, before, ref, name, after, calls) ==
   [name |-> nm, src |-> before \o ref \o after, tab |-> Tab, want |-> <<"err", name, Len(before) + 1, Len(before) + Len(ref) + 1, Append(calls, name)>>]
With(f, t) == [f EXCEPT !.tab = t]
lt == S("lt")
Both(k, n, P) ==     \* P: the character references start with
   CASE k = 1 -> Good("plain", Many(S("x y;"), n), Many(S("x y;"), n), <<>>)
     [] k = 2 -> Good("one reference many times", Many(P \o S("lt;"), n), Many(S("<"), n), <<lt>>)
     [] k = 3 -> Good("references without their ends", Many(P \o S("lt "), n), Many(S("< "), n), <<lt>>)
     [] k = 4 -> Good("references among odd characters", Many(Odd \o P \o S("lt;") \o Odd, n), Many(Odd \o S("<") \o Odd, n), <<lt>>)
     [] k = 5 -> Good("prefixes alone", Many(P, n) \o S(" "), Many(P, n) \o S(" "), <<>>)
     [] k = 6 -> Good("a reference after prefixes", Many(P, n) \o S("lt;"), Many(P, n - 1) \o S("<"), <<lt>>)
     [] k = 7 -> Good("texts with references", Many(P \o S("rec;"), n), Many(S("&lt;%rec;&#65;"), n), <<S("rec")>>)
     [] k = 8 -> Good("nothing left", Many(P \o S("no;"), n), <<>>, <<S("no")>>)
     [] k = 9 -> LET m == Many(S("nm.-"), n) IN
                 With(Good("a long name", P \o m \o S(";x"), S("[x]x"), <<m>>), << <<Many(S("nm.-"), n) \o S("n"), S("no")>>, <<m, S("[x]")>> >>)
     [] k = 10 -> LET m == Many(S("nm.-"), n) IN
                 With(Fails("a long name that is not known", Odd, P \o m \o S(";"), m, S("x"), <<>>), << <<SubSeq(m, 1, Len(m) - 1), S("no")>> >>)
     [] k = 11 -> With(Good("a long text", P \o S("lt;") \o P \o S("lt;"), Many(S("abc "), 2 * n), <<lt>>), << <<lt, Many(S("abc "), n)>> >>)
     [] k = 12 -> LET Name(i) == S("e") \o S(ToString(100000 + i)) IN
                 With(Good("many names", Each(n, LAMBDA i : P \o Name(i) \o S(";")), Each(n, LAMBDA i : S("[") \o Name(i) \o S("]")), [i \in 1..n |-> Name(i)]),
                      [i \in 1..n |-> <<Name(i), S("[") \o Name(i) \o S("]")>>])
     [] k = 13 -> Fails("a late unknown name", Many(Odd \o P \o S("lt;"), n), P \o S("oops;"), S("oops"), Many(S("x"), n), <<lt>>)
     [] k = 14 -> Fails("an early unknown name", <<>>, P \o S("oops"), S("oops"), S(" ") \o Many(P \o S("lt;"), n), <<>>)
     [] k = 15 -> Good("functions", Many(P \o S("#f;"), n), Many(S("[f]"), n), <<S("#f")>>)
     [] k = 16 -> Good("blanks", Many(<<" ", "\n", "\t", "\r">>, n) \o P \o S("lt;") \o Many(S(" "), n), Many(<<" ", "\n", "\t", "\r">>, n) \o S("<") \o Many(S(" "), n), <<lt>>)
     [] k = 17 -> Good("a late reference", Many(S("word, "), n) \o P \o S("lt;"), Many(S("word, "), n) \o S("<"), <<lt>>)
     [] k = 18 -> Good("an early reference", P \o S("lt;") \o Many(S("word, "), n), S("<") \o Many(S("word, "), n), <<lt>>)
     [] k = 19 -> Good("many ends", P \o S("lt") \o Many(S(";"), n), S("<") \o Many(S(";"), n - 1), <<lt>>)
NBoth == 19
Zeros(n) == Many(S("0"), n)
Codes(k, n) ==
   CASE k = 1 -> Good("codes", Many(S("&#65;&#x42;"), n), Many(S("AB"), n), <<>>)
     [] k = 2 -> Good("zeros", S("&#") \o Zeros(n) \o S("65;&#x") \o Zeros(n) \o S("e9"), S("A") \o <<"ue9">>, <<>>)
     [] k = 3 -> LET m == S("#") \o Many(S("9"), n + 6) IN Fails("nines", S("x"), S("&") \o m \o S(";"), m, S("y"), <<>>)
     [] k = 4 -> LET m == S("#x") \o Many(S("F"), n + 5) IN Fails("effs", S("x"), S("&") \o m \o S(";"), m, S("y"), <<>>)
     [] k = 5 -> LET m == S("#") \o Zeros(n) \o S("55296") IN Fails("zeros and a surrogate", S("x"), S("&") \o m \o S(";"), m, S("y"), <<>>)
     [] k = 6 -> LET m == S("#x") \o Many(S("a"), n) \o S("g") IN Fails("not hexadecimal", S("x"), S("&") \o m, m, S(" y"), <<>>)
     [] k = 7 -> LET m == S("#") \o Many(S("9"), n + 6) IN With(Good("nines that are known", S("&") \o m, S("!"), <<m>>), << <<m, S("!")>> >>)
     [] k = 8 -> Good("all kinds", Many(S("&#60;&lt;&#x3c&no;&%&#;"), n), Many(S("<<<&%&#;"), n), <<lt, S("no")>>)
     [] k = 9 -> LET m == S("#") \o Many(S("42949672"), n) \o S("65601") IN Fails("a multiple of all", <<>>, S("&") \o m \o S(";"), m, <<>>, <<>>)
     [] k = 10 -> LET m == S("#x") \o S("1") \o Zeros(n + 5) \o S("41") IN Fails("a large power", <<>>, S("&") \o m \o S(";"), m, <<>>, <<>>)
     [] k = 11 -> Good("no parameters", Many(S("%lt;%oops;"), n), Many(S("%lt;%oops;"), n), <<>>)
NCodes == 11
Params(k, n) ==
   CASE k = 1 -> Good("no characters", Many(S("%#65;&lt;&oops;"), n), Many(S("%#65;&lt;&oops;"), n), <<>>)
     [] k = 2 -> LET m == S("#x") \o Many(S("41"), n) IN Fails("a name like a code", Odd, S("%") \o m \o S(";"), m, S(" x"), <<>>)
NParams == 2
N == 2 * NBoth + NCodes + NParams
Kind(k) == IF k <= NBoth \/ (k > 2 * NBoth /\ k <= 2 * NBoth + NCodes) THEN "&" ELSE "%"
Family(k, n) ==
   IF k <= NBoth THEN Both(k, n, S("&"))
   ELSE IF k <= 2 * NBoth THEN Both(k - NBoth, n, S("%"))
   ELSE IF k <= 2 * NBoth + NCodes THEN Codes(k - 2 * NBoth, n)
   ELSE Params(k - 2 * NBoth - NCodes, n)
VARIABLES fam, n, got
vars == <<fam, n, got>>
Sizes == 1..4 \cup {17, 65, 129, 257, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ got = <<>>
Make == got = <<>> /\ got' = Family(fam, n) /\ UNCHANGED <<fam, n>>
Spec == Init /\ [][Make]_vars
Small == got # <<>> /\ n <= 17
Set(s) == {s[i] : i \in 1..Len(s)}
Walk == ExpRun(got.src, got.tab, Kind(fam), ExpInit)
ClosedForm == Small => LET w == Walk IN
   IF got.want[1] = "ok" THEN w.ok /\ w.out = got.want[2] /\ Set(w.calls) = Set(got.want[3])
   ELSE ~w.ok /\ <<w.name, w.from, w.to>> = <<got.want[2], got.want[3], got.want[4]>> /\ Set(w.calls) = Set(got.want[5])
Report == got # <<>> => PrintT(ToJson(<<got.src, Kind(fam), got.tab, got.want>>))
ASSUME PrintT(ToJson([toks |-> <<>>, tabs |-> <<>>]))
Alias == [name |-> Family(fam, 1).name, n |-> n, walk |-> IF Small THEN Walk ELSE <<>>, want |-> IF Small THEN got ELSE <<>>]
=============================================================================
