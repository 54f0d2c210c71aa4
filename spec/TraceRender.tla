---------------------------- MODULE TraceRender ----------------------------
(* Recorded renderings: what the real code wrote must read back as the fragment, by the specification's parser and *)
(* by the real one. *)
EXTENDS SgmlRender, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Conforms == l <= last =>
   /\ ~Rec.res.panic
   /\ Writable(Rec.ev) => /\ ReadsBack(Rec.res.text, Rec.ev, Rec.cfg)
                          /\ Rec.res.ok /\ Rec.res.ev = Canon(Rec.ev)
                          /\ Rec.res.same        \* writing again, and writing the owned fragment, gives the same text
Diag == [record |-> l, spec |-> [canon |-> Canon(Rec.ev), read |-> Parse(Rec.res.text, RereadCfg(Rec.cfg))]]
Alias == [l |-> l, diag |-> ToJson(Diag)]
=============================================================================
