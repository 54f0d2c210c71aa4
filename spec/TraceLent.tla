--------------------------- MODULE TraceLent -------------------------------
(***************************************************************************)
(* Recorded executions of the whole way from a source to a value that      *)
(* borrows from it.  Sources with references are only required to give an  *)
(* outcome (see MC_Lend for those).                                        *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlNormalize, SgmlDeser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last>>
Lo(c) == ((c - 1) * N) \div Chunks + 1
Hi(c) == (c * N) \div Chunks
Rec == Trace[l]
Init == \E c \in 1..Chunks : l = Lo(c) /\ last = Hi(c) /\ l <= last
NextRecord == l < last /\ l' = l + 1 /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Good1(r, o) == CASE o[1] = "ok"  -> r.agree /\ r.ok /\ r.v = o[2]
                 [] o[1] = "err" -> r.agree /\ ~r.ok
                 [] OTHER -> TRUE
Parsed == Parse(Rec.src, Rec.cfg)
Repaired == Normalize(Parsed.out)
Expected == IF \E i \in 1..Len(Rec.src) : Rec.src[i] = "&" THEN Open ELSE Outcome(Repaired[2], Rec.ty)
Readable == l <= last => POk(Parsed) /\ Repaired[1]
Conforms == l <= last => ~Rec.res.panic /\ Rec.res.parsed /\ Good1(Rec.res, Expected)
Alias == [l |-> l, diag |-> ToJson([record |-> l, spec |-> [expected |-> Expected, events |-> Repaired]])]
=============================================================================
