------------------------------- MODULE MC_C16 -------------------------------
(* C16: escaping is complete and reversible, and its iterator is honest. *)
EXTENDS SgmlEscape, Json, IOUtils
Toks == << S("<"), S(">"), S("&"), S("a"), S("#"), S("60"), S(";"), S("lt"), S("x3c"), <<"ue9">>, S("\""), S("#38;") >>
Depth == atoi(IOEnv.DEPTH)
VARIABLES toks, amp0, sched, e, out, phase
vars == <<toks, amp0, sched, e, out, phase>>
RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE Toks[ts[i]] \o Flat(ts, i + 1)
Src == Flat(toks, 1)
Init == toks = <<>> /\ amp0 = TRUE /\ sched = <<>> /\ e = EscInit(TRUE) /\ out = <<>> /\ phase = "compose"
Compose(t) == phase = "compose" /\ Len(toks) < Depth /\ toks' = Append(toks, t) /\ UNCHANGED <<amp0, sched, e, out, phase>>
Start(a) == phase = "compose" /\ phase' = "iterate" /\ amp0' = a /\ e' = EscInit(a) /\ UNCHANGED <<toks, sched, out>>
Step == /\ phase = "iterate" /\ ~EscDone(Src, e)
        /\ out' = Append(out, EscChar(Src, e)) /\ e' = EscNext(Src, e) /\ UNCHANGED <<toks, amp0, sched, phase>>
\* the setting may be changed once while iterating
Toggle == /\ phase = "iterate" /\ sched = <<>> /\ out # <<>> /\ Len(toks) <= Depth - 1
          /\ sched' = << <<Len(out), ~e.amp>> >> /\ e' = [e EXCEPT !.amp = ~@] /\ UNCHANGED <<toks, amp0, out, phase>>
Finish == phase = "iterate" /\ EscDone(Src, e) /\ phase' = "done" /\ UNCHANGED <<toks, amp0, sched, e, out>>
Next == (\E t \in 1..Len(Toks) : Compose(t)) \/ (\E a \in BOOLEAN : Start(a)) \/ Step \/ Toggle \/ Finish
Spec == Init /\ [][Next]_vars
Mode == IF sched # <<>> THEN "mixed" ELSE IF amp0 THEN "on" ELSE "off"
Done == phase = "done"
Complete == Done => Escapes(Src, out, Mode)
Reversible == Done /\ Mode = "on" => RoundTrips(Src, out) /\ Spells(Src, 1, out, 1, "on")
\* nothing to escape: a copy
PlainIsCopied == Done /\ (\A k \in 1..Len(Src) : Src[k] \notin {"<", ">", "&"}) => out = Src
\* the bounds the hint can rely on
Bounded == phase = "iterate" =>
   LET left == Len(EscRest(Src, e))
       chars == Len(Src) - e.i + 1
   IN chars + Len(e.buf) <= left /\ left <= 5 * chars + Len(e.buf)
\* what is left is what will come, as long as the setting is not changed
RestIsExact == [][phase = "iterate" /\ e'.amp = e.amp /\ out' # out => EscRest(Src, e) = <<out'[Len(out')]>> \o EscRest(Src, e')]_vars
Report == Done => PrintT(ToJson(<<toks, amp0, sched>>))
ASSUME PrintT(ToJson([toks |-> Toks]))
=============================================================================
