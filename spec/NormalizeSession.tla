-------------------------- MODULE NormalizeSession --------------------------
(***************************************************************************)
(* Fragments are composed from groups of events (Groups), then normalized, *)
(* one event at a time.                                                    *)
(***************************************************************************)
EXTENDS SgmlNormalize, Json, IOUtils
CONSTANT Groups
Depth == atoi(IOEnv.DEPTH)
VARIABLES toks, phase, st
vars == <<toks, phase, st>>
RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE Groups[ts[i]] \o Flat(ts, i + 1)
Evs == Flat(toks, 1)

Init == toks = <<>> /\ phase = "compose" /\ st = NInit
Compose(t) == phase = "compose" /\ Len(toks) < Depth /\ toks' = Append(toks, t) /\ UNCHANGED <<phase, st>>
Start == phase = "compose" /\ phase' = "read" /\ UNCHANGED <<toks, st>>
Read(kinds) == phase = "read" /\ ~NRead(Evs, st) /\ Evs[st.i][1] \in kinds /\ st' = NStep(Evs, st) /\ UNCHANGED <<toks, phase>>
OpenElement == Read({"open"})
EndElement  == Read({"end"})
CloseXml    == Read({"xclose"})
PassOver    == Read({"attr", "attr0", "close", "text", "pi", "decl", "sect"})
Reject      == phase = "read" /\ NRead(Evs, st) /\ NFails(Evs, st) /\ phase' = "rejected" /\ UNCHANGED <<toks, st>>
InsertAll   == phase = "read" /\ NRead(Evs, st) /\ ~NFails(Evs, st) /\ phase' = "normalized" /\ UNCHANGED <<toks, st>>
Next == (\E t \in 1..Len(Groups) : Compose(t)) \/ Start \/ OpenElement \/ EndElement \/ CloseXml \/ PassOver \/ Reject \/ InsertAll
Spec == Init /\ [][Next]_vars
Done == phase \in {"rejected", "normalized"}
Ok == phase = "normalized"
Out == NResult(Evs, st)
SeqOfSet(A) == LET RECURSIVE f(_) f(B) == IF B = {} THEN <<>> ELSE LET x == CHOOSE y \in B : TRUE IN <<x>> \o f(B \ {x}) IN f(A)
Report == Done => PrintT(ToJson(IF Ok THEN <<toks, "ok", Out>> ELSE <<toks, "err", SeqOfSet(NErrors(Evs, st))>>))
ASSUME PrintT(ToJson([groups |-> Groups]))
-----------------------------------------------------------------------------
(* C17 *)
OutBalanced == Ok => IsBalanced(Out) /\ WellFormed(Out)
\* the original events, in order, XML closings replaced: what remains when the inserted end tags are dropped
RECURSIVE Embeds(_, _, _, _)
Embeds(a, i, b, j) ==    \* a, with xclose as close, is b minus some end tags
   IF i > Len(a) THEN \A k \in j..Len(b) : b[k][1] = "end"
   ELSE IF j > Len(b) THEN FALSE
   ELSE LET x == IF a[i][1] = "xclose" THEN <<"close">> ELSE a[i] IN
        (b[j] = x /\ Embeds(a, i + 1, b, j + 1)) \/ (b[j][1] = "end" /\ Embeds(a, i, b, j + 1))
KeepsOriginals == Ok => Embeds(Evs, 1, Out, 1)
Count(evs, k) == Cardinality({i \in 1..Len(evs) : evs[i][1] = k})
OnlyMissing == Ok => /\ Len(Out) = Len(Evs) + Cardinality(Missing(Evs, st))
                     /\ Count(Out, "open") = Count(Out, "end")
BalancedUnchanged == Done /\ IsBalanced(Evs) /\ (\A k \in 1..Len(Evs) : ~EmptyNamed(Evs[k])) => Ok /\ Out = Evs
Idempotent == Ok => Normalize(Out) = <<TRUE, Out>>
PlacesInOrder == Ok => LET p == Places(Evs, st, 1) IN \A a, b \in 1..Len(p) : a < b => p[a][1] < p[b][1]
(* C18 *)
RejectsExactly == Done => (Ok <=> (\A k \in 1..Len(Evs) : ~EmptyNamed(Evs[k])) /\ Balanceable(Evs, 1, Len(Evs)))
ErrorsName == phase = "rejected" => NErrors(Evs, st) # {}
\* an end tag that is reported unmatched cannot be matched in the part of the fragment up to it,
\* unless another end tag in there stays unmatched
StrayIsStray == phase = "rejected" => \A z \in st.stray : ~Balanceable(Evs, 1, z)
=============================================================================
