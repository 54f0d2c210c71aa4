----------------------------- MODULE TraceReads -----------------------------
(* Recorded sequences of reads from one deserializer. *)
EXTENDS SgmlDeser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Good(r, o) == CASE o[1] = "ok"  -> r.ok /\ r.v = o[2]
                [] o[1] = "err" -> ~r.ok /\ (Len(o) = 2 => \A i \in 1..Len(r.why) : r.why[i] \in o[2])
                [] OTHER -> TRUE
Fits(outs, exp) == /\ (exp # <<>> /\ exp[Len(exp)][1] # "any" => Len(outs) = Len(exp))
                   /\ Len(outs) >= Len(exp)
                   /\ \A k \in 1..Len(exp) : Good(outs[k], exp[k])
Conforms == l <= last => ~Rec.res.panic /\ Fits(Rec.res.outs, Reads(Rec.ev, Rec.tys))
Alias == [l |-> l, diag |-> ToJson([record |-> l, spec |-> Reads(Rec.ev, Rec.tys)])]
=============================================================================
