----------------------------- MODULE SgmlViews -----------------------------
(***************************************************************************)
(* What a program does with a fragment after parsing: taking ownership of  *)
(* it, dropping the source, passing it around through its different views, *)
(* and changing it.  A fragment is nothing but its sequence of events.     *)
(*                                                                         *)
(* Normalizing is specified for well-formed fragments only, and not tried  *)
(* on others.                                                              *)
(*                                                                         *)
(* Operations: <<"own">> into_owned; <<"ownEach">> every event into_owned; *)
(* <<"drop">> the source goes away; <<"clone">>, <<"vec">>, <<"iter">>,     *)
(* <<"refs">>, <<"slice">> rebuild the fragment from a view;               *)
(* <<"norm">> normalize_end_tags (kept when rejected); <<"edit", edits>> a  *)
(* transform; <<"set", position, event>> assignment through iter_mut.      *)
(***************************************************************************)
EXTENDS SgmlNormalize, SgmlTransform
Detaching == {"own", "ownEach"}
Viewing == {"clone", "vec", "iter", "refs", "slice"}
VStep(ev, op) ==
   CASE op[1] = "norm" -> IF ~WellFormed(ev) THEN ev ELSE LET r == Normalize(ev) IN IF r[1] THEN r[2] ELSE ev
     [] op[1] = "edit" -> TResult(ev, op[2])
     [] op[1] = "set"  -> IF op[2] < Len(ev) THEN [ev EXCEPT ![op[2] + 1] = op[3]] ELSE ev
     [] OTHER -> ev
\* the source may go away once the fragment has been detached; whatever is put in later is owned
VOwned(owned, op) == owned \/ op[1] \in Detaching
VMay(owned, op) == op[1] = "drop" => owned
RECURSIVE VRun(_, _, _)     \* the events after each operation
VRun(ev, ops, k) == IF k > Len(ops) THEN <<>> ELSE LET e == VStep(ev, ops[k]) IN <<e>> \o VRun(e, ops, k + 1)
Silent(op) == op[1] \in Detaching \cup Viewing \cup {"drop"}
=============================================================================
