---------------------------- MODULE TraceMessage ----------------------------
(***************************************************************************)
(* Trace validation of parse error messages.  Every record is a parse of   *)
(* the real code with its message.  What the message says of the source is *)
(* compared with the source; and where it says that a character was        *)
(* expected, the parser's machine reads the text up to the reported place  *)
(* with that character instead of the rest: it must not object to          *)
(* anything before the end of that.                                        *)
(***************************************************************************)
EXTENDS ParserActions, SgmlMessage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last
vars == <<l, last, st>>
Lo(k) == ((k - 1) * N) \div Chunks + 1
Hi(k) == (k * N) \div Chunks
Rec == Trace[l]
Rejected(r) == ~r.res.ok /\ ~r.res.panic
Instead(r) == SubSeq(r.src, 1, r.res.at - 1) \o Expected(r.res.msg)
Init == \E k \in 1..Chunks : l = Lo(k) /\ last = Hi(k) /\ l <= last /\ st = PInit
Needed == Rejected(Rec) /\ Expected(Rec.res.msg) # <<>>
Read == l <= last /\ Needed /\ ~Halted(st) /\ ParserNext(Instead(Rec), Rec.cfg) /\ UNCHANGED <<l, last>>
NextRecord == l < last /\ (Needed => Halted(st)) /\ l' = l + 1 /\ st' = PInit /\ UNCHANGED last
Next == Read \/ NextRecord
Spec == Init /\ [][Next]_vars
\* (a keyword or a reference can only be judged once its text is complete)
Acceptable == POk(st) \/ st.hi > Rec.res.at \/ st.ek # "syntax"
Conforms == l <= last => /\ ~Rec.res.panic
                         /\ (Rejected(Rec) /\ st = PInit => MessageOk(Rec.src, Rec.res.at, Rec.res.msg))
                         /\ (Needed /\ Halted(st) => Acceptable)
Diag == [record |-> l, spec |-> [ok |-> POk(st), ev |-> st.out, lo |-> st.lo, hi |-> st.hi, ek |-> st.ek, en |-> st.en]]
Alias == [l |-> l, diag |-> ToJson(Diag)]
=============================================================================
