--------------------------- MODULE TracePipeline ---------------------------
(***************************************************************************)
(* Recorded executions of the whole way from a source to a value.  Each    *)
(* record has the source, the configuration, and the canonical fragment it *)
(* is a spelling of.  The value must be that of the canonical fragment,    *)
(* and the specified parser, end tag insertion and deserializer must agree *)
(* that it is.                                                             *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlNormalize, SgmlDeser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Good1(r, o) == CASE o[1] = "ok"  -> r.agree /\ r.ok /\ r.v = o[2]
                 [] o[1] = "err" -> r.agree /\ ~r.ok
                 [] OTHER -> TRUE
Expected == Outcome(Rec.can, Rec.ty)
Parsed == Parse(Rec.src, Rec.cfg)
Repaired == Normalize(Parsed.out)
Equivalent == l <= last => POk(Parsed) /\ Repaired[1] /\ (Outcome(Repaired[2], Rec.ty) = Expected \/ Expected = Open)
Conforms == l <= last => ~Rec.res.panic /\ Rec.res.parsed /\ Rec.res.same /\ Good1(Rec.res, Expected)
Alias == [l |-> l, diag |-> ToJson([record |-> l, spec |-> [expected |-> Expected, spelled |-> Repaired]])]
=============================================================================
