--------------------------- MODULE TraceTransform ---------------------------
(* Recorded histories of transforms, replayed on the specification's state. *)
EXTENDS SgmlTransform, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, k, tr, out
vars == <<l, last, k, tr, out>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last /\ k = 1 /\ tr = TInit /\ out = <<>>
Record == l <= last /\ k <= Len(Rec.ops) /\ tr' = TRecord(tr, Rec.ops[k]) /\ k' = k + 1 /\ UNCHANGED <<l, last, out>>
Apply  == l <= last /\ k = Len(Rec.ops) + 1 /\ out' = TApply(tr, Rec.orig) /\ k' = k + 1 /\ UNCHANGED <<l, last, tr>>
NextRecord == l < last /\ k = Len(Rec.ops) + 2 /\ l' = l + 1 /\ k' = 1 /\ tr' = TInit /\ out' = <<>> /\ UNCHANGED last
Spec == Init /\ [][Record \/ Apply \/ NextRecord]_vars
\* is_empty() before the k-th edit
EmptyAgrees == l <= last /\ k <= Len(Rec.ops) + 1 /\ ~Rec.res.panic => Rec.res.empty[k] = TEmpty(tr)
Conforms == l <= last /\ k = Len(Rec.ops) + 2 =>
   /\ ~Rec.res.panic
   /\ Rec.res.out = out
   /\ Rec.res.again            \* applying a clone gives the same
Diag == [record |-> l, spec |-> out]
Alias == [l |-> l, diag |-> IF k > Len(Rec.ops) THEN ToJson([record |-> l, spec |-> TApply(tr, Rec.orig)]) ELSE ToJson([record |-> l])]
=============================================================================
