--------------------------- MODULE ParserSession ---------------------------
(***************************************************************************)
(* A session with the parser: a document is composed token by token, a     *)
(* configuration is chosen, and the parser reads the document.  TLC        *)
(* explores every document of at most Depth tokens under every             *)
(* configuration.  Report prints the outcome of each run; the driver       *)
(* executes each of them on the real code and compares.                    *)
(***************************************************************************)
EXTENDS ParserActions, SgmlProps, Json, IOUtils
CONSTANTS Toks,          \* sequence of texts the documents are made of
          Cfgs,          \* sequence of configurations
          Frames         \* sequence of pairs <<start, end>> of token sequences around the composed tokens

Depth == atoi(IOEnv.DEPTH)    \* maximal number of tokens added to the start

VARIABLES toks,          \* the document so far, as token indices
          frame, room, cfg
vars == <<toks, frame, room, cfg, st>>

RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE Toks[ts[i]] \o Flat(ts, i + 1)
Src == Flat(toks, 1)
Cfg == Cfgs[cfg]
Running == cfg # 0
Final == Running /\ Halted(st)

Init == /\ frame \in 1..Len(Frames) /\ toks = Frames[frame][1]
        /\ cfg = 0 /\ room = Depth /\ st = PInit
Compose(t) == /\ ~Running /\ room > 0
              /\ toks' = Append(toks, t) /\ room' = room - 1 /\ UNCHANGED <<frame, cfg, st>>
Submit(c)  == /\ ~Running /\ cfg' = c /\ room' = 0
              /\ toks' = toks \o Frames[frame][2] /\ UNCHANGED <<frame, st>>
Parser     == Running /\ ParserNext(Src, Cfg) /\ UNCHANGED <<toks, frame, cfg, room>>
Next == \/ \E t \in 1..Len(Toks) : Compose(t)
        \/ \E c \in 1..Len(Cfgs) : Submit(c)
        \/ Parser
Spec == Init /\ [][Next]_vars

\* the tokens between the frame's start and end
Body == SubSeq(toks, Len(Frames[frame][1]) + 1, Len(toks) - Len(Frames[frame][2]))
Has(t) == \E i \in 1..Len(toks) : toks[i] = t
OnlyToks(A) == \A i \in 1..Len(Body) : Body[i] \in A
-----------------------------------------------------------------------------
(* Printed for the driver *)
Outcome(p) == IF POk(p) THEN <<"ok", p.out>> ELSE <<"err", p.lo, p.hi, p.ek, p.en>>
Report == Final => PrintT(ToJson(<<toks, cfg, Outcome(st)>>))
ASSUME PrintT(ToJson([toks |-> Toks, cfgs |-> Cfgs]))

-----------------------------------------------------------------------------
(* True of every run, whatever the property at hand *)
Progress == Running => /\ st.pos <= Len(Src) + 1
                       /\ st.phase = "done" => st.pos = Len(Src) + 1 /\ st.stack = <<>>
\* exactly one action is enabled unless the run is over (the reading is unambiguous and never stuck)
Decided == Running /\ ~Halted(st) => ENABLED Parser
\* every step consumes input, changes phase or ends the run; events are only appended
\* (except that keeping a section replaces the events read inside it), and failing is final
Advances == [][Running => /\ st'.pos > st.pos \/ st'.phase # st.phase
                          /\ st'.pos >= st.pos
                          /\ st.stack = <<>> => /\ Len(st'.out) >= Len(st.out)
                                               /\ SubSeq(st'.out, 1, Len(st.out)) = st.out]_vars

\* the parse of another document under another configuration, for comparisons
ParseToks(ts, c) == Parse(Flat(ts, 1), c)
With(ok, evs) == [ok |-> ok, evs |-> evs]
Res(p) == With(POk(p), IF POk(p) THEN p.out ELSE <<>>)
=============================================================================
