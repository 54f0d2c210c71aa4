---------------------------- MODULE TraceBuilder ----------------------------
(* Recorded sessions with builders and parsers: the calls, then the documents one parser read, checked against the specification. *)
EXTENDS SgmlBuilder, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, i, conf, outs
vars == <<l, last, i, conf, outs>>
Lo(k) == ((k - 1) * N) \div Chunks + 1
Hi(k) == (k * N) \div Chunks
Rec == Trace[l]
Init == \E k \in 1..Chunks : l = Lo(k) /\ last = Hi(k) /\ l <= last /\ i = 1 /\ conf = DefaultCfg /\ outs = <<>>
Configure == /\ i <= Len(Rec.calls) /\ conf' = Called(conf, Rec.calls[i]) /\ i' = i + 1 /\ UNCHANGED <<l, last, outs>>
Read == /\ i > Len(Rec.calls) /\ Len(outs) < Len(Rec.docs)
        /\ outs' = Append(outs, Parsed(Rec.docs[Len(outs) + 1], conf)) /\ UNCHANGED <<l, last, i, conf>>
Over == i > Len(Rec.calls) /\ Len(outs) = Len(Rec.docs)
NextRecord == l < last /\ Over /\ l' = l + 1 /\ i' = 1 /\ conf' = DefaultCfg /\ outs' = <<>> /\ UNCHANGED last
Spec == Init /\ [][Configure \/ Read \/ NextRecord]_vars
\* the parser's answers, in order; what its configuration shows
Same(a, b) == a[1] = b[1] /\ (a[1] = "ok" => a[2] = b[2])
Conforms == l <= last /\ Over =>
   /\ ~Rec.res.panic
   /\ Len(Rec.res.outs) = Len(outs)
   /\ \A k \in 1..Len(outs) : Same(outs[k], Rec.res.outs[k])
   /\ Rec.res.shown = Shown(conf, Rec.text)
Diag == [record |-> l, spec |-> [conf |-> conf, outs |-> outs, shown |-> Shown(conf, Rec.text)]]
Alias == [l |-> l, diag |-> IF Over THEN ToJson(Diag) ELSE ""]
=============================================================================
