--------------------------- MODULE TraceNormalize ---------------------------
(* Recorded normalizations, checked against the normalizer's machine. *)
EXTENDS SgmlNormalize, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, st
vars == <<l, last, st>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last /\ st = NInit
Read == l <= last /\ ~NRead(Rec.ev, st) /\ st' = NStep(Rec.ev, st) /\ UNCHANGED <<l, last>>
NextRecord == l < last /\ NRead(Rec.ev, st) /\ l' = l + 1 /\ st' = NInit /\ UNCHANGED last
Spec == Init /\ [][Read \/ NextRecord]_vars
Good(r) == IF NFails(Rec.ev, st) THEN ~r.ok /\ <<r.ek, r.en>> \in NErrors(Rec.ev, st) /\ (r.ek = "unpaired" => Contains(r.msg, r.en))
           ELSE r.ok /\ r.out = NResult(Rec.ev, st) /\ r.again
Conforms == l <= last /\ NRead(Rec.ev, st) => ~Rec.res.panic /\ (WellFormed(Rec.ev) => Good(Rec.res))
Diag == [record |-> l, spec |-> IF NFails(Rec.ev, st) THEN [ok |-> FALSE, errors |-> NErrors(Rec.ev, st)] ELSE [ok |-> TRUE, ev |-> NResult(Rec.ev, st)]]
Alias == [l |-> l, diag |-> IF NRead(Rec.ev, st) /\ WellFormed(Rec.ev) THEN ToJson(Diag) ELSE ToJson([record |-> l])]
=============================================================================
