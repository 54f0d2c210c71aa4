------------------------------- MODULE MC_C15 -------------------------------
(* C15: rendering a fragment yields SGML that parses back to the same fragment. *)
EXTENDS SgmlRender, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
A == S("a")
K == S("k")
\* groups of events, and the part of a fragment they may stand in ("p" prolog, "t" start tag, "c" content)
Groups == << [in |-> "c", ev |-> <<<<"open", A>>>>], [in |-> "t", ev |-> <<<<"close">>>>], [in |-> "t", ev |-> <<<<"xclose">>>>],
   [in |-> "t", ev |-> <<<<"attr0", K>>>>], [in |-> "t", ev |-> <<<<"attr", K, <<>>>>>>], [in |-> "t", ev |-> <<<<"attr", A, S("v \"w'")>>>>],
   [in |-> "t", ev |-> <<<<"attr", K, S("it's>")>>>>], [in |-> "t", ev |-> <<<<"attr", K, S("a\"/>")>>>>], [in |-> "t", ev |-> <<<<"attr", K, S("&#34;'\"&x")>>>>],
   [in |-> "t", ev |-> <<<<"attr", <<"ue9">>, <<"<", "\n", "u984c">>>>>>],
   [in |-> "c", ev |-> <<<<"end", A>>>>], [in |-> "c", ev |-> <<<<"open", <<>>>>, <<"close">>>>], [in |-> "c", ev |-> <<<<"end", <<>>>>>>],
   [in |-> "c", ev |-> <<<<"text", S("x")>>>>], [in |-> "c", ev |-> <<<<"text", <<" ", "\n">>>>>>], [in |-> "c", ev |-> <<<<"text", S("&lt;<b>]]>")>>>>],
   [in |-> "c", ev |-> <<<<"text", S("&")>>>>], [in |-> "c", ev |-> <<<<"text", S("#60;<!-- -->")>>>>], [in |-> "c", ev |-> <<<<"text", <<>>>>>>],
   [in |-> "c", ev |-> <<<<"pi", S("<?p \"<a>")>>>>], [in |-> "p", ev |-> <<<<"decl", S("D"), S("x [ <!-- > --> ] '>'")>>>>], [in |-> "p", ev |-> <<<<"decl", A, <<>>>>>>],
   [in |-> "c", ev |-> <<<<"sect", S("CDATA"), S("<&]]")>>>>], [in |-> "c", ev |-> <<<<"sect", S(" ignore "), S("<![[ ]]> ")>>>>],
   [in |-> "c", ev |-> <<<<"sect", <<>>, S("<a>&#60;<![CDATA[>]]>x")>>>>] >>
VARIABLES toks, phase, written
vars == <<toks, phase, written>>
RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE Groups[ts[i]].ev \o Flat(ts, i + 1)
Evs == Flat(toks, 1)
InTag == toks # <<>> /\ LET e == Evs[Len(Evs)] IN e[1] \in {"attr", "attr0"} \/ (e[1] = "open" /\ e[2] # <<>>)
Init == toks = <<>> /\ phase = "compose" /\ written = <<>>
Compose(t) == /\ phase = "compose" /\ Len(toks) < Depth
              /\ (Groups[t].in = "t") = InTag
              /\ toks' = Append(toks, t) /\ UNCHANGED <<phase, written>>
WriteOut == phase = "compose" /\ Writable(Evs) /\ phase' = "written" /\ written' = Write(Evs) /\ UNCHANGED toks
Next == (\E t \in 1..Len(Groups) : Compose(t)) \/ WriteOut
Spec == Init /\ [][Next]_vars
Done == phase = "written"
RoundTrip == Done => ReadsBack(written, Evs, DefaultCfg)
\* writing what was read gives the same again
Stable == Done => LET c == Canon(Evs) IN Canon(c) = c /\ Write(c) = Write(Canon(c)) /\ ReadsBack(Write(c), c, DefaultCfg)
Report == Done => PrintT(ToJson(<<toks>>))
ASSUME PrintT(ToJson([groups |-> [i \in 1..Len(Groups) |-> Groups[i].ev]]))
=============================================================================
