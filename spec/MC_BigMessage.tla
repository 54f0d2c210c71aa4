---------------------------- MODULE MC_BigMessage ----------------------------
(***************************************************************************)
(* C14, C32: mistakes far into a document, on a line of any length, in     *)
(* constructs that were begun long before.                                 *)
(***************************************************************************)
EXTENDS SgmlParser, BigFragments, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Cfg == [DefaultCfg EXCEPT !.sect = "all", !.trim = FALSE]
\* what is wrong: a start, where constructs begin; lines may come before the rest; whether anything may come after it
Mistakes == << <<"", "&u;">>, <<"", "<a ?>">>, <<"<a", " b='&u;'>">>, <<"<a b=", "'&#9999999;'">>, <<"", "<![X[">>, <<"<![CDATA[", "x">>, <<"<![INCLUDE[", "<a <">>, <<"<![INCLUDE[<b>", "</b ?">>,
               <<"<!--", "- -">>, <<"<!-- --", "y">>, <<"<![IGNORE[<![", "]]>">>, <<"<?p", "">>, <<"</a", "<">>, <<"<![TEMP[<![RCDATA[", "&v;]]>]]>">>, <<"<a ", "b= >">>, <<"<a b='", "\"">> >>
NL == <<"\n">>
Lines(k, n) == CASE k = 1 -> Many(NL, n) [] k = 2 -> Many(<<"x", " ", "\r", "\n">>, n) [] k = 3 -> Many(<<"u984c", "\n", "\r">>, n)
Fill(k, n) == CASE k = 1 -> Many(S("x"), n) [] k = 2 -> Many(<<"u1f600">>, n) [] k = 3 -> Many(<<" ", "ue9">>, n) [] k = 4 -> Many(<<"\t">>, n)
Far == {0, 1, 8, 9, 98, 99, 254, 255, 256} \cup (IF Depth > 256 THEN {998, 999, Depth} ELSE {})
Long == {1, 14, 15, 29, 30, 31, 45, 59, 60, 61, 99, 100, 119, 120, 121, 199, 200, 201, 255, 256}
After == {0, 16, 31, 90, 201}
In(m) == S("<r>") \o m
\* lines before the mistake, or inside of what is wrong
Down == { [m |-> m, before |-> b, inside |-> i, lk |-> k, col |-> 0, fk |-> 1, after |-> 0] : m \in 1..Len(Mistakes), b \in Far, i \in {0, 1, 9, 100}, k \in 1..3 }
\* text on the same line
Across == { [m |-> m, before |-> b, inside |-> 0, lk |-> 1, col |-> c, fk |-> k, after |-> a] : m \in {1, 2, 5, 7, 13}, b \in {0, 9}, c \in Long, k \in 1..4, a \in After }
\* blanks on the same line, within what is wrong
Within == { [m |-> m, before |-> 2, inside |-> 0, lk |-> 0, col |-> c, fk |-> 4, after |-> 0] : m \in 1..Len(Mistakes), c \in Long }
Document(x) ==
   LET w == Mistakes[x.m] IN
   IF x.lk = 0 THEN S("<r>\n") \o S(w[1]) \o Fill(x.fk, x.col) \o S(w[2])
   ELSE In(Lines(x.lk, x.before)) \o Fill(x.fk, x.col) \o S(w[1]) \o Lines(IF x.m \in {3, 4, 8, 13, 15} THEN 1 ELSE x.lk, x.inside) \o S(w[2])
        \o (IF x.after = 0 THEN <<>> ELSE Many(S("z"), x.after) \o NL \o S("</r>"))
VARIABLES which, src
vars == <<which, src>>
Init == which \in Down \cup Across \cup Within /\ src = <<>>
Make == src = <<>> /\ src' = Document(which) /\ UNCHANGED which
Spec == Init /\ [][Make]_vars
\* each of them is rejected
Rejected == src # <<>> /\ Len(src) < 400 => ~POk(Parse(src, Cfg))
Report == src # <<>> => PrintT(ToJson(<<src, 1>>))
ASSUME PrintT(ToJson([toks |-> <<>>, cfgs |-> <<Cfg>>]))
=============================================================================
