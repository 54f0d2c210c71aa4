---------------------------- MODULE TraceExpand ----------------------------
(* Recorded direct calls of the expansion functions, checked against the expander machine. *)
EXTENDS SgmlEntities, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, ex
vars == <<l, last, ex>>
Lo(k) == ((k - 1) * N) \div Chunks + 1
Hi(k) == (k * N) \div Chunks
Rec == Trace[l]
Init == \E k \in 1..Chunks : l = Lo(k) /\ last = Hi(k) /\ l <= last /\ ex = ExpInit
Advance == l <= last /\ ~ex.done /\ ex' = ExpStep(Rec.src, Rec.tab, Rec.kind, ex) /\ UNCHANGED <<l, last>>
NextRecord == l < last /\ ex.done /\ l' = l + 1 /\ ex' = ExpInit /\ UNCHANGED last
Spec == Init /\ [][Advance \/ NextRecord]_vars
Conforms == l <= last /\ ex.done =>
   /\ ~Rec.res.panic
   /\ Rec.res.ok = ex.ok
   \* the same names are looked up (how often does not matter)
   /\ {Rec.res.calls[i] : i \in 1..Len(Rec.res.calls)} = {ex.calls[i] : i \in 1..Len(ex.calls)}
   /\ IF ex.ok THEN Rec.res.out = ex.out
      ELSE /\ Rec.res.name = ex.name /\ Rec.res.from = ex.from /\ Rec.res.to = ex.to
           /\ Contains(Rec.res.msg, ex.name)
Diag == [record |-> l, spec |-> ex]
Alias == [l |-> l, diag |-> IF ex.done THEN ToJson(Diag) ELSE ""]
=============================================================================
