------------------------------ MODULE MC_Depths ------------------------------
(***************************************************************************)
(* Fragments that are nested ever deeper, read as recursive types.  A      *)
(* recursive type is, for the n-th member of a family, the one unrolled    *)
(* deep enough.  Values are given as JSON texts, which again are ropes.    *)
(* TLC checks the closed form for small members; the driver reads large    *)
(* members as the recursive type, each in a process of its own.            *)
(***************************************************************************)
EXTENDS SgmlDeser, SgmlFamily, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)

I(s) == <<O(S(s))>>
Opn(n) == <<"open", I(n)>>
Cls == <<"close">>
En(n) == <<"end", I(n)>>
Tx(s) == <<"text", I(s)>>
Av(k, v) == <<"attr", I(k), I(v)>>
RO == O(<<Opn("r"), Cls>>)
RE == O(<<En("r")>>)
RT(ps) == <<RO>> \o ps \o <<RE>>

\* the types the driver knows by name, unrolled n levels
Str == <<"str">>
Unroll(ty, n) ==
   LET RECURSIVE U(_)
       U(k) == IF k = 0 THEN <<"unit">> ELSE
               CASE ty = "list" -> <<"struct", << <<S("a"), <<"opt", U(k - 1)>>, "req">> >>>>
                 [] ty = "items" -> <<"struct", << <<S("a"), <<"seq", U(k - 1)>>, "def">> >>>>
                 [] ty = "content" -> <<"struct", << <<Dollar, <<"seq", U(k - 1)>>, "def">> >>>>
                 [] ty = "choice" -> <<"enum", << <<S("a"), "newtype", U(k - 1)>>, <<S("b"), "unit">> >>>>
                 [] ty = "tree" -> <<"enum", << <<S("a"), "struct", << <<S("a"), <<"opt", U(k - 1)>>, "req">> >>>>, <<S("b"), "unit">> >>>>
                 [] ty = "map" -> <<"map", U(k - 1)>>
                 [] ty = "value" -> <<"any">>
                 [] ty = "str" -> Str
                 [] ty = "unit" -> <<"unit">>
                 [] ty = "flat" -> <<"struct", << <<S("b"), Str, "def">>, <<S("c"), Str, "req">> >>>>
   IN U(n)

\* JSON texts of values
Quoted(t) == <<"\"">> \o t \o <<"\"">>
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE ts[1] \o (IF Len(ts) > 1 THEN <<",">> ELSE <<>>) \o Joined(Tail(ts))
Pair(k, t) == Quoted(k) \o <<":">> \o t
RECURSIVE Show(_, _)
Show(ty, v) ==
   CASE v[1] = "none" -> S("null")
     [] v[1] = "unit" -> S("null")
     [] v[1] = "some" -> Show(ty[2], v[2])
     [] v[1] = "default" -> IF ty[1] = "seq" THEN S("[]") ELSE S("\"\"")
     [] v[1] = "str" -> Quoted(v[2])
     [] v[1] = "seq" -> <<"[">> \o Joined([i \in 1..Len(v[2]) |-> Show(ty[2], v[2][i])]) \o <<"]">>
     [] v[1] = "map" -> <<"{">> \o Joined([i \in 1..Len(v[2]) |-> Pair(v[2][i][1], Show(IF ty[1] = "map" THEN ty[2] ELSE ty, v[2][i][2]))]) \o <<"}">>
     [] v[1] = "struct" -> <<"{">> \o Joined([i \in 1..Len(v[2]) |-> Pair(ty[2][i][1], Show(ty[2][i][2], v[2][i]))]) \o <<"}">>
     [] v[1] = "var" -> LET vt == CHOOSE x \in {ty[2][i] : i \in 1..Len(ty[2])} : x[1] = v[2]
                        IN IF vt[2] = "unit" THEN Quoted(v[2])
                           ELSE <<"{">> \o Pair(v[2], Show(IF vt[2] = "struct" THEN <<"struct", vt[3]>> ELSE vt[3], v[3])) \o <<"}">>

\* ok: the JSON text of the value; most: the largest member to execute, 0 if any
Good1(nm, ty, ev, js) == [kind |-> "deser", name |-> nm, p |-> <<"C26">>, most |-> 0, ty |-> ty, ev |-> ev, ok |-> TRUE, js |-> js]
Bad1(nm, ty, ev) == [kind |-> "deser", name |-> nm, p |-> <<"C26">>, most |-> 0, ty |-> ty, ev |-> ev, ok |-> FALSE, js |-> <<>>]

Down == M(<<Opn("a"), Cls>>)
Up == M(<<En("a")>>)
Families == <<
   Good1("any value, ever deeper", "value", RT(<<Down, O(<<Tx("x")>>), Up>>), <<M(S("{\"a\":")), O(S("\"x\"")), M(S("}"))>>),
   Good1("any value with attributes, ever deeper", "value", RT(<<M(<<Opn("a"), Av("A", "v"), Cls>>), O(<<Opn("b"), Cls, Tx("x"), En("b")>>), Up>>),
         <<O(S("{")), M(S("\"a\":{\"A\":\"v\",")), O(S("\"b\":\"x\"}")), M(S("}"))>>),
   Good1("a list, ever deeper", "list", RT(<<Down, Up>>), <<M(S("{\"a\":")), O(S("{\"a\":null}")), M(S("}"))>>),
   Good1("items within items, ever deeper", "items", RT(<<Down, Up>>), <<M(S("{\"a\":[")), O(S("{\"a\":[]}")), M(S("]}"))>>),
   Good1("two items each, ever deeper", "items", RT(<<M(<<Opn("a"), Cls, En("a"), Opn("a"), Cls>>), Up>>),
         <<M(S("{\"a\":[{\"a\":[]},")), O(S("{\"a\":[]}")), M(S("]}"))>>),
   Good1("content within content, ever deeper", "content", RT(<<Down, Up>>), <<M(S("{\"$value\":[")), O(S("{\"$value\":[]}")), M(S("]}"))>>),
   Good1("choices, ever deeper", "choice", <<Down, O(<<Tx("b")>>), Up>>, <<M(S("{\"a\":")), O(S("\"b\"")), M(S("}"))>>),
   Good1("choices that are structs, ever deeper", "tree", <<M(<<Opn("a"), Cls, Opn("a"), Cls>>), O(<<Tx("b")>>), M(<<En("a"), En("a")>>)>>, <<M(S("{\"a\":{\"a\":")), O(S("\"b\"")), M(S("}}"))>>),
   Good1("maps, ever deeper", "map", RT(<<Down, Up>>), <<M(S("{\"a\":")), O(S("{}")), M(S("}"))>>),
   Good1("text, ever deeper", "str", RT(<<Down, O(<<Tx("x")>>), Up>>), I("\"x\"")),
   Good1("nothing, ever deeper", "unit", RT(<<Down, O(<<Tx("x")>>), Up>>), I("null")),
   Good1("unknown elements, ever deeper", "flat", RT(<<Down, O(<<Opn("c"), Cls, Tx("no"), En("c")>>), Up, O(<<Opn("c"), Cls, Tx("x"), En("c")>>)>>), I("{\"b\":\"\",\"c\":\"x\"}")),
   Good1("a field of text, ever deeper", "flat", RT(<<O(<<Opn("c"), Cls>>), Down, O(<<Tx("x")>>), Up, O(<<En("c"), Opn("b"), Cls, En("b")>>)>>), I("{\"b\":\"\",\"c\":\"x\"}")),
   Bad1("no such choice, ever deeper", "choice", <<Down, O(<<Tx("c")>>), Up>>),
   Bad1("repeated, ever deeper", "list", RT(<<Down, O(<<Opn("a"), Cls, En("a"), Opn("b"), Cls, En("b"), Opn("a"), Cls, En("a")>>), Up>>)),
   Bad1("not closed, ever deeper", "value", <<RO, Down, O(<<Tx("x")>>), Up>>),
   Bad1("closed too often, ever deeper", "items", RT(<<Down, Up, O(<<En("a")>>)>>)),
   Bad1("closed out of order, ever deeper", "str", RT(<<Down, O(<<Opn("b"), Cls>>), Up, O(<<En("b")>>)>>)),
   Bad1("never closed, ever deeper", "flat", <<RO, Down>>)
>>

VARIABLES fam, n
vars == <<fam, n>>
F == Families[fam]
Init == fam \in 1..Len(Families) /\ n = 1
Grow == n < Depth /\ n' = n + 1 /\ UNCHANGED fam
Spec == Init /\ [][Grow]_vars
Ty == Unroll(F.ty, 2 * n + 3)
Out == Outcome(EventsOf(F.ev, n), Ty)
Regular == IF F.ok THEN Out[1] = "ok" /\ Show(Ty, Out[2]) = Cat(F.js, n) ELSE Out[1] = "err"
Report == n = Depth => PrintT(ToJson(F))
Alias == [name |-> F.name, n |-> n, out |-> Out, shown |-> IF Out[1] = "ok" THEN Show(Ty, Out[2]) ELSE <<>>, want |-> Cat(F.js, n)]
=============================================================================
