------------------------------- MODULE MC_C26 -------------------------------
(***************************************************************************)
(* C26: any sequence of events, as any type.  Events are composed freely   *)
(* (on their own, or within a root element) and read.                      *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Evs == << <<"open", S("a")>>, <<"open", S("b")>>, <<"open", <<>>>>, <<"close">>, <<"xclose">>, <<"end", S("a")>>, <<"end", S("b")>>, <<"end", <<>>>>, <<"text", S("1")>>, <<"text", S(" ")>>,
          <<"attr", S("a"), S("1")>>, <<"attr0", S("b")>>, <<"pi", S("<?p>")>>, <<"decl", S("D"), S("d")>>, <<"sect", S("CDATA"), S("1")>>,
          <<"!", << <<"open", S("a")>>, <<"close">> >> >>, <<"!", << <<"open", S("b")>>, <<"close">>, <<"end", S("b")>> >> >> >>
I8 == <<"int", "i8">>
Str == <<"str">>
Struct(fs) == <<"struct", fs>>
F(n, T) == <<S(n), T, "req">>
D(n, T) == <<S(n), T, "def">>
En == <<"enum", << <<S("a"), "unit">>, <<S("b"), "newtype", I8>>, <<S("1"), "unit">> >>>>
Et == <<"enum", << <<S("a"), "tuple", <<I8, Str>>>>, <<S("b"), "struct", <<D("a", I8)>>>> >>>>
Types == << I8, Str, <<"bool">>, <<"unit">>, <<"any">>, Struct(<<D("a", I8), D("b", <<"unit">>)>>), Struct(<<D("a", <<"any">>), D("b", Struct(<<D("a", Str)>>))>>),
            Struct(<<D("$value", Str), D("a", Str)>>), Struct(<<D("$value", <<"seq", <<"any">>>>)>>), Struct(<<D("a", <<"seq", I8>>), D("b", <<"seq", <<"ignored">>>>)>>),
            <<"map", <<"any">>>>, En, Et, Struct(<<D("a", En), D("b", Et)>>), Struct(<<D("$value", <<"seq", En>>)>>), <<"seq", I8>>, <<"seq", Struct(<<D("a", I8)>>)>>, <<"tuple", <<Str, Str>>>>,
            <<"opt", <<"new", Struct(<<>>)>>>>, Struct(<<D("a", <<"opt", <<"tuple", <<Str, I8>>>>>>), D("$value", <<"opt", En>>)>>), <<"enum", << <<S("a"), "newtype", <<"seq", En>>>>, <<S("b"), "newtype", En>> >>>>,
            <<"map", <<"lazy", "none">>>>, Struct(<<D("a", <<"lazy", "seq1">>), D("b", <<"lazy", "map1">>)>>), Struct(<<D("$value", <<"lazy", "enum0">>), D("a", <<"lazy", "any1">>)>>) >>
VARIABLES es, wrap, ty, out
vars == <<es, wrap, ty, out>>
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>> ELSE (IF Evs[xs[1]][1] = "!" THEN Evs[xs[1]][2] ELSE <<Evs[xs[1]]>>) \o Flat(Tail(xs))
Wraps == 0..2
DocFor(w, xs) == CASE w = 0 -> Flat(xs)
                   [] w = 1 -> << <<"open", S("a")>>, <<"close">> >> \o Flat(xs) \o << <<"end", S("a")>> >>
                   [] w = 2 -> << <<"open", S("r")>> >> \o Flat(xs) \o << <<"close">>, <<"open", S("b")>>, <<"close">>, <<"text", S("2")>>, <<"end", S("b")>>, <<"end", S("r")>> >>
Doc == DocFor(wrap, es)
Init == es = <<>> /\ wrap = 9 /\ ty = 0 /\ out = <<>>
Add(e) == wrap = 9 /\ Len(es) < Depth /\ es' = Append(es, e) /\ UNCHANGED <<wrap, ty, out>>
Read(w, t) == wrap = 9 /\ wrap' = w /\ ty' = t /\ out' = Outcome(DocFor(w, es), Types[t]) /\ UNCHANGED es
Next == (\E e \in 1..Len(Evs) : Add(e)) \/ (\E w \in Wraps, t \in 1..Len(Types) : Read(w, t))
Spec == Init /\ [][Next]_vars
Done == wrap # 9
Report == Done => PrintT(ToJson(<<Doc, ty, out>>))
ASSUME PrintT(ToJson([types |-> Types]))

\* Nesting, by counting: a value is only ever read from an element whose tags match one another
RECURSIVE MatchUp(_, _, _)
MatchUp(evs, i, stack) ==
   IF i > Len(evs) THEN FALSE
   ELSE IF evs[i][1] = "open" THEN MatchUp(evs, i + 1, <<evs[i][2]>> \o stack)
   ELSE IF evs[i][1] # "end" THEN MatchUp(evs, i + 1, stack)
   ELSE stack # <<>> /\ Head(stack) = evs[i][2] /\ (Len(stack) = 1 \/ MatchUp(evs, i + 1, Tail(stack)))
SeveralRoots == ManyRoots(Types[ty])
OkIsNested == Done /\ out[1] = "ok" => Doc[1][1] = "open" /\ Doc[1][2] # <<>> /\ MatchUp(Doc, 1, <<>>)
UnbalancedIsError == Done /\ ~IsLazy(Types[ty]) /\ ~SeveralRoots /\ Doc # <<>> /\ Doc[1][1] = "open" /\ ~MatchUp(Doc, 1, <<>>) /\ (\A i \in 1..Len(Doc) : Doc[i][1] # "xclose") => out = Err
NothingThere == Done /\ ~SeveralRoots /\ (Doc = <<>> \/ Doc[1][1] # "open") => out[1] # "ok"
\* unsupported events inside what a scalar or a mapping is read from
Unsupported == Done /\ out[1] = "ok" /\ wrap = 1 /\ Types[ty][1] \in {"int", "str", "bool", "map"} =>
   \A i \in 1..Len(Doc) : (\A j \in 1..(i - 1) : ~(j > 1 /\ MatchUp(SubSeq(Doc, 1, j), 1, <<>>))) => Doc[i][1] \notin {"pi", "decl", "sect"} /\ Doc[i] # <<"open", <<>>>>
=============================================================================
