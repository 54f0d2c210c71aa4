---------------------------- MODULE TraceParser ----------------------------
(***************************************************************************)
(* Trace validation: every record of the trace file is one parse done by   *)
(* the real code (source text, configuration, outcome).  The parser's      *)
(* machine is run on the same text; when it halts, its outcome must be the *)
(* recorded one.                                                           *)
(***************************************************************************)
EXTENDS ParserActions, SgmlReport, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
\* what to compare: "outcome", "entity" (and undefined names), "position" (and the error's place) or
\* "report" (and the rendered message)
What == IOEnv.WHAT

N == Len(Trace)
VARIABLES l, last
vars == <<l, last, st>>
Lo(k) == ((k - 1) * N) \div Chunks + 1
Hi(k) == (k * N) \div Chunks

Init == \E k \in 1..Chunks : l = Lo(k) /\ last = Hi(k) /\ l <= last /\ st = PInit

Rec == Trace[l]
Running == l <= last /\ ~Halted(st)
Read == Running /\ ParserNext(Rec.src, Rec.cfg) /\ UNCHANGED <<l, last>>
NextRecord == /\ l < last /\ Halted(st)
              /\ l' = l + 1 /\ st' = PInit /\ UNCHANGED last
Next == Read \/ NextRecord
Spec == Init /\ [][Next]_vars

\* the outcome of the machine, as recorded by the driver
SameOutcome(res) ==
   /\ ~res.panic /\ res.agree
   /\ res.ok = POk(st)
   /\ res.ok => res.ev = st.out
\* an undefined reference is reported as such and named, also in the message
SameEntity(res) ==
   ~res.ok /\ (res.ek = "entity" \/ st.ek = "entity") =>
      res.ek = st.ek /\ res.en = st.en /\ Contains(res.msg, st.en)
SamePosition(res) ==
   ~res.ok => st.lo <= res.at /\ res.at <= st.hi /\ res.ek = st.ek
Conforms == l <= last /\ Halted(st) =>
   /\ SameOutcome(Rec.res)
   /\ What = "entity"   => SameEntity(Rec.res)
   /\ What \in {"position", "report"} => SamePosition(Rec.res)
   /\ What = "report"   => (~Rec.res.ok => ReportOk(Rec.src, Rec.res.at, Rec.res.msg))
Diag == [record |-> l, spec |-> [ok |-> POk(st), ev |-> st.out, lo |-> st.lo, hi |-> st.hi, ek |-> st.ek, en |-> st.en]]
Alias == [l |-> l, diag |-> IF Halted(st) THEN ToJson(Diag) ELSE ""]
=============================================================================
