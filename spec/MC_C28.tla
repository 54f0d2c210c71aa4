------------------------------- MODULE MC_C28 -------------------------------
(* C28: detaching events from the source changes nothing observable. *)
EXTENDS SgmlViews, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
N(x) == S(x)
Sources == <<
   << <<"open", N("a")>>, <<"attr", N("k"), N("v w")>>, <<"attr0", N("z")>>, <<"close">>, <<"text", N("x&<\"'")>>, <<"end", N("a")>> >>,
   << <<"pi", N("<?p>")>>, <<"decl", N("DOCTYPE"), N("a []")>>, <<"sect", N("CDATA"), N("<q>")>>, <<"open", <<>>>>, <<"close">>, <<"end", <<>>>> >>,
   << <<"open", N("A")>>, <<"close">>, <<"open", N("b")>>, <<"attr", N("c"), <<>>>>, <<"xclose">>, <<"text", N(" ")>>, <<"open", N("b")>>, <<"close">>, <<"end", N("A")>>, <<"decl", N("E"), <<>>>> >>,
   << <<"end", N("q")>>, <<"text", <<>>>>, <<"text", <<>>>>, <<"attr", N("x"), N("x")>>, <<"xclose">>, <<"close">> >>,
   <<>> >>
Op(f) == <<f>>
Operations == {Op(f) : f \in Detaching \cup Viewing \cup {"drop", "norm"}}
   \cup {<<"edit", << <<"ins", 1, <<"text", N("new")>>>>, <<"del", 1>> >>>>, <<"edit", << <<"del", 0>>, <<"ins", 9, <<"end", N("a")>>>> >>>>}
   \cup {<<"set", 4, <<"text", N("changed")>>>>, <<"set", 0, <<"open", N("c")>>>>}
VARIABLES k, ev, owned, alive, ops, seen
vars == <<k, ev, owned, alive, ops, seen>>
Init == k \in 1..Len(Sources) /\ ev = Sources[k] /\ owned = FALSE /\ alive = TRUE /\ ops = <<>> /\ seen = <<>>
Do(op) == /\ Len(ops) < Depth /\ VMay(owned, op) /\ (op[1] = "drop" => alive)
          /\ ev' = VStep(ev, op) /\ owned' = VOwned(owned, op) /\ alive' = (alive /\ op[1] # "drop")
          /\ ops' = Append(ops, op) /\ seen' = Append(seen, ev') /\ UNCHANGED k
Detach    == \E op \in Operations : op[1] \in Detaching /\ Do(op)
View      == \E op \in Operations : op[1] \in Viewing /\ Do(op)
Drop      == Do(<<"drop">>)
Normalized == Do(<<"norm">>)
Transform == \E op \in Operations : op[1] = "edit" /\ Do(op)
Assign    == \E op \in Operations : op[1] = "set" /\ Do(op)
Next == Detach \/ View \/ Drop \/ Normalized \/ Transform \/ Assign
Spec == Init /\ [][Next]_vars
Done == Len(ops) = Depth
Report == Done => PrintT(ToJson(<<k, ops, seen>>))
ASSUME PrintT(ToJson([sources |-> Sources]))
-----------------------------------------------------------------------------
\* nothing depends on the source once it is gone
SafeToDrop == ~alive => owned
\* the fragment is what the changes made it; detaching, dropping and viewing leave no trace
Loud == SelectSeq(ops, LAMBDA op : ~Silent(op))
RECURSIVE Final(_, _, _)
Final(e, o, i) == IF i > Len(o) THEN e ELSE Final(VStep(e, o[i]), o, i + 1)
SilentIsSilent == ev = Final(Sources[k], Loud, 1)
SeenAgrees == seen = VRun(Sources[k], ops, 1)
DetachingStutters == [][(ops' # ops /\ Silent(ops'[Len(ops')])) => ev' = ev]_vars
=============================================================================
