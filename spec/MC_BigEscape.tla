----------------------------- MODULE MC_BigEscape -----------------------------
(***************************************************************************)
(* C16: texts that grow without bound, and their escaped form in closed    *)
(* form, which TLC checks for small members.                               *)
(***************************************************************************)
EXTENDS SgmlEscape, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Lt == S("&#60;")
Gt == S("&#62;")
Amp == S("&#38;")
Odd == <<"u1f600", "ue9", "\n">>
\* one: the escaped form, spelled as the escaper of the specification does
Fam(nm, src, one) == [name |-> nm, src |-> src, one |-> one]
Same(nm, src) == Fam(nm, src, src)
N == 17
Family(k, n) ==
   CASE k = 1 -> Same("plain", Many(S("x y"), n))
     [] k = 2 -> Same("odd characters", Many(Odd, n))
     [] k = 3 -> Same("entities without their ampersand", Many(S("lt;#60;"), n))
     [] k = 4 -> Fam("angles", Many(S("<>"), n), Many(Lt \o Gt, n))
     [] k = 5 -> Fam("one angle late", Many(S("x"), n) \o S("<"), Many(S("x"), n) \o Lt)
     [] k = 6 -> Fam("one angle early", S(">") \o Many(S("x"), n), Gt \o Many(S("x"), n))
     [] k = 7 -> Fam("ampersands", Many(S("&"), n), Many(Amp, n))
     [] k = 8 -> Fam("one ampersand late", Many(Odd, n) \o S("&"), Many(Odd, n) \o Amp)
     [] k = 9 -> Fam("references", Many(S("&#60;"), n), Many(S("&#38;#60;"), n))
     [] k = 10 -> Fam("named references", Many(S("&lt;&amp;"), n), Many(S("&#38;lt;&#38;amp;"), n))
     [] k = 11 -> Fam("tags", Many(S("<a b=\"c\">x</a>"), n), Many(Lt \o S("a b=\"c\"") \o Gt \o S("x") \o Lt \o S("/a") \o Gt, n))
     [] k = 12 -> Fam("angles among odd characters", Many(Odd \o S("<") \o Odd \o S("&>"), n), Many(Odd \o Lt \o Odd \o Amp \o Gt, n))
     [] k = 13 -> Fam("an ampersand with many digits", S("&#") \o Many(S("0"), n) \o S("60;"), Amp \o S("#") \o Many(S("0"), n) \o S("60;"))
     [] k = 14 -> Fam("a long name after an ampersand", S("&") \o Many(S("ab"), n) \o S(";"), Amp \o Many(S("ab"), n) \o S(";"))
     [] k = 15 -> Fam("blanks and a mark", Many(<<" ", "\n", "\t", "\r">>, n) \o S("<") \o Many(S(" "), n), Many(<<" ", "\n", "\t", "\r">>, n) \o Lt \o Many(S(" "), n))
     [] k = 16 -> Fam("marks at both ends", S("<") \o Many(S("]]"), n) \o S(">"), Lt \o Many(S("]]"), n) \o Gt)
     [] k = 17 -> Fam("angles, then ampersands", Many(S("<"), n) \o Many(S("&"), n) \o Many(S(">"), n), Many(Lt, n) \o Many(Amp, n) \o Many(Gt, n))
\* without ampersands escaped, or switched off and on on the way
Modes == {<<TRUE, FALSE>>, <<FALSE, FALSE>>, <<TRUE, TRUE>>}
Sched(s, m) == IF m[2] THEN << <<(Len(s) * 2) \div 3, FALSE>>, <<Len(s), TRUE>> >> ELSE <<>>
VARIABLES fam, n, mode, got
vars == <<fam, n, mode, got>>
Sizes == 1..4 \cup {17, 65, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ mode \in Modes /\ got = <<>>
Make == got = <<>> /\ got' = Family(fam, n) /\ UNCHANGED <<fam, n, mode>>
Spec == Init /\ [][Make]_vars
Small == got # <<>> /\ n <= 65
ClosedForm == Small => Escape(got.src) = got.one /\ Escapes(got.src, got.one, "on")
Report == got # <<>> => PrintT(ToJson(<<got.src, mode[1], Sched(got.src, mode)>>))
ASSUME PrintT(ToJson([toks |-> <<>>]))
Alias == [name |-> Family(fam, 1).name, n |-> n, one |-> IF Small THEN Escape(got.src) ELSE <<>>, want |-> IF Small THEN got.one ELSE <<>>]
=============================================================================
