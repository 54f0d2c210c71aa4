---------------------------- MODULE TraceEscape ----------------------------
(* Recorded iterations of the escaper, checked step by step. *)
EXTENDS SgmlEscape, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Sched == Rec.sched
Mode == IF Len(Sched) > 0 THEN "mixed" ELSE IF Rec.amp THEN "on" ELSE "off"
\* a look is <<lo, hi, left, display shows what is left>>
Honest(s) == s[1] <= s[3] /\ (s[2] = -1 \/ s[3] <= s[2]) /\ s[4]
LastChange == MaxOf({-1} \cup {Sched[k][1] : k \in 1..Len(Sched)})
Result ==
   LET r == Rec.res IN
   /\ ~r.panic
   /\ Escapes(Rec.src, r.out, Mode)
   /\ Escapes(Rec.src, r.plain, "on")
   /\ Len(r.steps) = Len(r.out) + 1
   \* the number of characters left at each step is the number that came
   /\ \A k \in 1..Len(r.steps) : Honest(r.steps[k]) /\ (k - 1 >= LastChange => r.steps[k][3] = Len(r.out) - (k - 1))
   /\ r.fused
   /\ r.ws = [k \in 1..Len(Rec.src) |-> Rec.src[k] \in Space]
Conforms == l <= last => Result
Diag == [record |-> l, spec |-> [mode |-> Mode, one |-> EscRest(Rec.src, EscInit(Rec.amp))]]
Alias == [l |-> l, diag |-> ToJson(Diag)]
=============================================================================
