----------------------------- MODULE TraceDeser -----------------------------
(* Recorded deserializations, checked against what the fragment means as a value of the type. *)
EXTENDS SgmlDeser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
What == IOEnv.WHAT
\* what the errors say, too, if asked for
Truthful(r) == LET o == Reasoned(Rec.ev, Rec.ty) IN
   o[1] = "err" /\ Len(o) = 2 => \A i \in 1..Len(r.why) : r.why[i] \in o[2]
Good(r, o) == CASE o[1] = "ok"  -> r.agree /\ r.ok /\ r.v = o[2]
                [] o[1] = "err" -> r.agree /\ ~r.ok
                [] OTHER -> TRUE
Conforms == l <= last => ~Rec.res.panic /\ Good(Rec.res, Outcome(Rec.ev, Rec.ty)) /\ (What = "why" => Truthful(Rec.res))
Alias == [l |-> l, diag |-> ToJson([record |-> l, spec |-> Reasoned(Rec.ev, Rec.ty)])]
=============================================================================
