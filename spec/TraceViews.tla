----------------------------- MODULE TraceViews -----------------------------
(* Recorded histories of fragments: parsed or given, then passed around, changed, and detached from the source. *)
EXTENDS SgmlParser, SgmlViews, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, k, ev, owned
vars == <<l, last, k, ev, owned>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Start(r) == IF r.given THEN r.orig ELSE Parse(r.src, r.cfg).out
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last /\ k = 0 /\ ev = Start(Trace[Lo(c)]) /\ owned = FALSE
Operate == l <= last /\ k < Len(Rec.ops) /\ VMay(owned, Rec.ops[k + 1])
        /\ k' = k + 1 /\ ev' = VStep(ev, Rec.ops[k + 1]) /\ owned' = VOwned(owned, Rec.ops[k + 1]) /\ UNCHANGED <<l, last>>
NextRecord == l < last /\ k = Len(Rec.ops) /\ l' = l + 1 /\ k' = 0 /\ ev' = Start(Trace[l + 1]) /\ owned' = FALSE /\ UNCHANGED last
Spec == Init /\ [][Operate \/ NextRecord]_vars
\* seen[k + 1]: the events after k operations; views[k + 1]: whether everything observable agrees
Conforms == l <= last =>
   /\ ~Rec.res.panic
   /\ (k > 0 \/ Rec.given \/ POk(Parse(Rec.src, Rec.cfg)) = Rec.res.parsed)
   /\ Rec.res.parsed => Rec.res.seen[k + 1] = ev /\ Rec.res.views[k + 1]
Alias == [l |-> l, diag |-> ToJson([record |-> l, spec |-> [after |-> k, events |-> ev]])]
=============================================================================
