------------------------------- MODULE MC_C20 -------------------------------
(***************************************************************************)
(* C20: scalar values read the same from attributes and from elements, are *)
(* exact, and leave their neighbours alone.  A text is composed, put at    *)
(* one of the places a value can be in, between neighbours, and read.      *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils, Integers
Depth == atoi(IOEnv.DEPTH)
Tokens == <<S("0"), S("1"), S("9"), S("-"), S("+"), S(" "), S("."), S("5"), S("e"), S("x"), <<"ue9">>, S("00"), S("127"), S("128"), S("255"), S("256"), S("32767"), S("32768"),
            S("65535"), S("65536"), S("2147483647"), S("2147483648"), S("4294967295"), S("4294967296"), S("9223372036854775807"), S("9223372036854775808"),
            S("18446744073709551615"), S("18446744073709551616"), S("NaN"), S(".5"), S("e3"), S("E-07"), S("null"), S("<&>\"'")>>
Kinds == <<"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64">>
Values == [k \in 1..8 |-> <<"int", Kinds[k]>>] \o << <<"float", "f32">>, <<"float", "f64">>, <<"char">>, <<"str">>, <<"unit">>, <<"opt", <<"int", "u8">>>>, <<"opt", <<"str">>>>, <<"new", <<"int", "i8">>>> >>
NV == Len(Values)
Left == <<S("a"), <<"int", "i32">>, "req">>
Right == <<S("z"), <<"str">>, "req">>
Field(T) == <<"struct", <<Left, <<S("v"), T, "req">>, Right>>>>
Content(T) == <<"struct", <<Left, <<S("$value"), T, "req">>, Right>>>>
Items(T) == <<"struct", <<Left, <<S("v"), <<"seq", T>>, "req">>, Right>>>>
Types == [k \in 1..(3 * NV) |-> CASE k <= NV -> Field(Values[k]) [] k <= 2 * NV -> Content(Values[k - NV]) [] OTHER -> Items(Values[k - 2 * NV])]
Places == {"attr", "elem", "split", "content", "items", "absent"}
TypeAt(p, k) == CASE p = "content" -> NV + k [] p = "items" -> 2 * NV + k [] OTHER -> k
E(n, c) == << <<"open", n>>, <<"close">> >> \o c \o << <<"end", n>> >>
T(x) == << <<"text", x>> >>
V == <<"v">>
L == E(S("a"), T(S("-7")))
R == E(S("z"), T(S(" z ")))
Rest(ps) == SubSeq(ps, 2, Len(ps))
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Flat(Tail(ps))
\* the first piece of the text, and the others inside an unrelated element
Split(ps) == IF ps = <<>> THEN E(S("q"), <<>>) ELSE T(ps[1]) \o << <<"open", S("q")>>, <<"attr", V, S("3")>>, <<"close">> >> \o T(Flat(Tail(ps))) \o << <<"end", S("q")>> >> \o T(<<>>)
DocFor(p, ps) ==
   LET x == Flat(ps)
       open == << <<"open", S("r")>> >>
       close == << <<"close">> >>
       end == << <<"end", S("r")>> >>
   IN CASE p = "attr"   -> open \o << <<"attr", S("a"), S("-7")>>, <<"attr", V, x>>, <<"attr", S("z"), S(" z ")>> >> \o close \o end
        [] p = "elem"   -> open \o close \o L \o E(V, T(x)) \o R \o end
        [] p = "split"  -> open \o close \o L \o E(V, Split(ps)) \o R \o end
        [] p = "content" -> open \o << <<"attr", S("a"), S("-7")>>, <<"attr", S("z"), S(" z ")>> >> \o close \o T(x) \o end
        [] p = "items"  -> open \o << <<"attr", S("z"), S(" z ")>> >> \o close \o E(V, T(x)) \o E(V, Split(ps)) \o L \o end
        [] p = "absent" -> open \o close \o L \o R \o end
VARIABLES ps, place, ty, out
vars == <<ps, place, ty, out>>
Init == ps = <<>> /\ place = "" /\ ty = 0 /\ out = <<>>
Add(t) == place = "" /\ Len(ps) < Depth /\ ps' = Append(ps, Tokens[t]) /\ UNCHANGED <<place, ty, out>>
Read(p, k) == place = "" /\ (p = "absent" => ps = <<>>) /\ place' = p /\ ty' = TypeAt(p, k) /\ out' = Outcome(DocFor(p, ps), Types[TypeAt(p, k)]) /\ UNCHANGED ps
Next == (\E t \in 1..Len(Tokens) : Add(t)) \/ (\E p \in Places, k \in 1..NV : Read(p, k))
Spec == Init /\ [][Next]_vars
Done == place # ""
Report == Done => PrintT(ToJson(<<DocFor(place, ps), ty, out>>))
ASSUME PrintT(ToJson([types |-> Types]))

Text == Flat(ps)
Val == out[2][2][2]
The == Types[ty][2][2][2]        \* the type of the value
Sort == IF place = "items" THEN The[2] ELSE The
\* the value is the same wherever the text is
SameEverywhere == Done /\ place # "absent" =>
   LET k == IF place = "content" THEN ty - NV ELSE IF place = "items" THEN ty - 2 * NV ELSE ty
       a == Outcome(DocFor("attr", ps), Types[k])
   IN /\ out[1] = a[1]
      /\ (out[1] = "ok" => Val = IF place = "items" THEN <<"seq", <<a[2][2][2], a[2][2][2]>>>> ELSE a[2][2][2])
NeighboursKept == Done /\ out[1] = "ok" => out[2][2][1] = <<"int", S("-7")>> /\ out[2][2][3] = <<"str", S(" z ")>>
RECURSIVE Horner(_, _)
Horner(d, acc) == IF d = <<>> THEN acc ELSE Horner(Tail(d), 10 * acc + DigitOf[d[1]])
\* small numbers, by arithmetic
Range == [i8 |-> <<-128, 127>>, i16 |-> <<-32768, 32767>>, u8 |-> <<0, 255>>, u16 |-> <<0, 65535>>]
Exact == Done /\ place \in {"attr", "elem"} /\ Sort[1] = "int" /\ Len(Text) <= 7 =>
   LET neg == Text # <<>> /\ Text[1] = "-"
       d == IF Text # <<>> /\ Text[1] \in {"-", "+"} THEN Tail(Text) ELSE Text
       n == IF neg THEN 0 - Horner(d, 0) ELSE Horner(d, 0)
       fits == AllDigits(d) /\ (Sort[2] \in DOMAIN Range => Range[Sort[2]][1] <= n /\ n <= Range[Sort[2]][2]) /\ (Sort[2] \notin Signed => ~neg)
   IN /\ (out[1] = "ok") = fits
      /\ (fits => LET w == Val[2] IN (IF w[1] = "-" THEN 0 - Horner(Tail(w), 0) ELSE Horner(w, 0)) = n)
Strings == Done /\ place \in {"attr", "elem", "split"} /\ Sort = <<"str">> => Val = <<"str", Text>>
Present == Done /\ Sort[1] = "opt" /\ place \notin {"items"} /\ out[1] = "ok" => (Val = <<"none">>) = (place = "absent")
Missing1 == Done /\ place = "absent" => (out[1] = "ok") = (Sort[1] = "opt")
=============================================================================
