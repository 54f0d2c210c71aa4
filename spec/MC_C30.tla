------------------------------- MODULE MC_C30 -------------------------------
(* C30: a parser does what its builder was told, setting by setting, for every document it is given.  A session: calls of *)
(* the builder, then either its configuration is taken, or a parser is built and reads documents one after another. *)
EXTENDS SgmlBuilder, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Tab1 == << <<S("l"), S(" <L> ")>> >>
Tab2 == << <<S("m"), S("M")>> >>
Tab3 == << <<S("p"), S("CDATA")>> >>
Tab4 == << <<S("p"), S("ignore")>>, <<S("l"), S("RCDATA")>> >>
Calls == << <<"trim", TRUE>>, <<"trim", FALSE>>, <<"names", "keep">>, <<"names", "lower">>, <<"names", "upper">>, <<"lowercase">>,
   <<"uppercase">>, <<"sections", "keep">>, <<"sections", "chars">>, <<"sections", "all">>, <<"expand">>,
   <<"declarations", TRUE>>, <<"declarations", FALSE>>, <<"instructions", TRUE>>, <<"instructions", FALSE>>,
   <<"entities", Tab1>>, <<"entities", Tab2>>, <<"parameters", Tab3>>, <<"parameters", Tab4>> >>
Docs == << S("<!Doc x><?pi> <Aa Bb=' &#65; ' c> t <![CDATA[ x ]]> <?Q> </Aa>"),
           S("<a> <![Include[ <B> ]]><![ignore[x]]> </a>"),
           S("<x y='&l;'> &l; "),
           S("<?p><a> <![%p;[ &m; ]]>b"),
           S("<a b='"),
           S("<A> &m; </A>") >>
Text0 == S(" \t&l;%p; ")
VARIABLES calls, conf, ended, next, outs
vars == <<calls, conf, ended, next, outs>>
Init == calls = <<>> /\ conf = DefaultCfg /\ ended = "" /\ next = 0 /\ outs = <<>>
Configure(k) == /\ ended = "" /\ Len(calls) < Depth
                /\ calls' = Append(calls, k) /\ conf' = Called(conf, Calls[k]) /\ UNCHANGED <<ended, next, outs>>
\* the parser is built; the first document is chosen, the others follow in order
Build(d) == ended = "" /\ ended' = "build" /\ next' = d /\ UNCHANGED <<calls, conf, outs>>
Read == /\ ended = "build" /\ Len(outs) < Len(Docs) + 1
        /\ outs' = Append(outs, Parsed(Docs[next], conf)) /\ next' = (next % Len(Docs)) + 1 /\ UNCHANGED <<calls, conf, ended>>
TakeConfig == ended = "" /\ ended' = "config" /\ outs' = <<Shown(conf, Text0)>> /\ UNCHANGED <<calls, conf, next>>
Next == (\E k \in 1..Len(Calls) : Configure(k)) \/ (\E d \in {1, 4} : Build(d)) \/ Read \/ TakeConfig
Spec == Init /\ [][Next]_vars
Final == ended = "config" \/ Len(outs) = Len(Docs) + 1

\* every setting is the argument of the last call about it, or the default
Arg(call) == CASE call[1] = "lowercase" -> "lower" [] call[1] = "uppercase" -> "upper" [] call[1] = "expand" -> "all" [] OTHER -> call[2]
LastWins == \A f \in DOMAIN conf :
   LET mine == {i \in 1..Len(calls) : Field(Calls[calls[i]]) = f}
   IN conf[f] = IF mine = {} THEN DefaultCfg[f] ELSE Arg(Calls[calls[MaxOf(mine)]])
\* calls about different settings commute
Commute == \A i \in 1..(Len(calls) - 1) :
   Field(Calls[calls[i]]) # Field(Calls[calls[i + 1]]) =>
      conf = Configured([j \in 1..Len(calls) |-> Calls[calls[IF j = i THEN i + 1 ELSE IF j = i + 1 THEN i ELSE j]]])
\* a document read before and after others gives the same
SameAgain == Final /\ ended = "build" => outs[1] = outs[Len(outs)]
Fixed == [][ended = "build" => conf' = conf]_vars
Report == Final => PrintT(ToJson(<<calls, ended, IF ended = "build" THEN next ELSE 0, outs>>))
ASSUME PrintT(ToJson([calls |-> Calls, docs |-> Docs, text |-> Text0]))
=============================================================================
