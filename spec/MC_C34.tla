------------------------------- MODULE MC_C34 -------------------------------
(***************************************************************************)
(* C34: values read one after another from one deserializer.  A fragment   *)
(* of several roots is composed root by root, each with the type it is to  *)
(* be read as.                                                             *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
I8 == <<"int", "i8">>
Str == <<"str">>
Struct(fs) == <<"struct", fs>>
F(n, T) == <<S(n), T, "req">>
D(n, T) == <<S(n), T, "def">>
En == <<"enum", << <<S("a"), "unit">>, <<S("b"), "newtype", I8>>, <<S("c"), "newtype", <<"seq", I8>>>>, <<S("d"), "struct", <<D("a", I8), D("b", I8)>>>> >>>>
Types == << I8, Str, <<"bool">>, <<"unit">>, <<"any">>, Struct(<<D("a", I8), D("b", <<"seq", I8>>)>>), Struct(<<D("$value", Str), D("a", Str)>>),
            Struct(<<D("$value", <<"seq", En>>)>>), <<"map", <<"any">>>>, En, Struct(<<D("a", En), D("b", <<"unit">>)>>), <<"opt", <<"new", Struct(<<F("a", <<"tuple", <<I8, I8>>>>)>>)>>>>,
            Struct(<<D("$value", <<"unit">>), D("b", <<"unit">>)>>), Struct(<<>>), Struct(<<D("$value", <<"opt", En>>)>>) >>
El(n, evs) == << <<"open", S(n)>>, <<"close">> >> \o evs \o << <<"end", S(n)>> >>
T(s) == << <<"text", S(s)>> >>
Roots == << El("a", T("1")), El("b", T("x")), El("a", <<>>), << <<"open", S("c")>>, <<"attr", S("a"), S("2")>>, <<"attr0", S("b")>>, <<"close">>, <<"end", S("c")>> >>,
            El("r", El("a", T("1")) \o El("a", T("2"))), El("r", El("a", T("a")) \o El("b", T("2")) \o El("b", T("3"))), El("c", El("i", T("1")) \o El("i", T("2"))),
            El("d", El("a", T("1")) \o El("b", T("2"))), El("a", El("b", T("7"))), El("r", T(" a ")), El("r", El("c", T("5"))),
            << <<"text", S(" ")>> >>, << <<"text", S("x")>> >>, << <<"pi", S("<?p>")>> >> >>
VARIABLES evs, tys, outs
vars == <<evs, tys, outs>>
NotRead == << <<"unread">> >>
Init == evs = <<>> /\ tys = <<>> /\ outs = NotRead
\* (for more than two roots, some of them and some of the types)
UsedTypes == IF Depth > 2 THEN {2, 5, 6, 8, 10, 12, 13, 15} ELSE 1..Len(Types)
UsedRoots == IF Depth > 2 THEN {1, 3, 4, 5, 6, 7, 8, 9} ELSE 1..Len(Roots)
Write(r, t) == outs = NotRead /\ Len(tys) < Depth /\ evs' = evs \o Roots[r] /\ tys' = Append(tys, t) /\ UNCHANGED outs
TypesOf(ts) == [k \in 1..Len(ts) |-> Types[ts[k]]]
\* reads what there is, and perhaps once more
Read(more) == /\ outs = NotRead /\ tys # <<>>
              /\ tys' = (IF more THEN Append(tys, tys[1]) ELSE tys)
              /\ outs' = Reads(evs, TypesOf(tys')) /\ UNCHANGED evs
\* (what cannot be read is not followed by more)
Worth == IF tys = <<>> THEN TRUE ELSE LET r == Reads(evs, TypesOf(tys)) IN r[Len(r)][1] = "ok"
Next == (Worth /\ \E r \in UsedRoots, t \in UsedTypes : Write(r, t)) \/ (\E more \in BOOLEAN : Read(more))
Spec == Init /\ [][Next]_vars
Done == outs # NotRead
Report == Done => PrintT(ToJson(<<evs, tys, outs>>))
ASSUME PrintT(ToJson([types |-> Types]))

\* The order of what was read before does not matter: the values are those of the roots read on their own
RECURSIVE Alone(_, _)
Alone(es, ts) == IF ts = <<>> THEN <<>>
                 ELSE LET e == Elem(es, 1) IN <<Outcome(SubSeq(es, 1, e.next - 1), Types[ts[1]])>> \o Alone(SubSeq(es, e.next, Len(es)), Tail(ts))
AllRead == Done /\ \A k \in 1..Len(outs) : outs[k][1] = "ok"
OnTheirOwn == AllRead => outs = Alone(evs, tys)
\* ...and those they have as the contents of one element that is read as a tuple
Values(os) == [k \in 1..Len(os) |-> os[k][2]]
Together == AllRead => LET w == Outcome(<< <<"open", S("w")>>, <<"close">> >> \o evs \o << <<"end", S("w")>> >>, Struct(<<F("$value", <<"tuple", TypesOf(tys)>>)>>))
                       IN w = <<"ok", <<"struct", << <<"tuple", Values(outs)>> >>>>>>
\* there is nothing to read at the end
AtTheEnd == Done /\ outs[Len(outs)][1] = "ok" => Len(outs) = Len(tys) /\ evs # <<>>
=============================================================================
