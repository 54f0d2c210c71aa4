---------------------------- MODULE TraceBlocks ----------------------------
(* Recorded calls of the public building blocks, checked against the specification. *)
EXTENDS SgmlBlocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == atoi(IOEnv.CHUNKS)
N == Len(Trace)
VARIABLES l, last, want
vars == <<l, last, want>>
Lo(k) == ((k - 1) * N) \div Chunks + 1
Hi(k) == (k * N) \div Chunks
Specified(i) == [k \in 1..Len(Trace[i].names) |->
   LET b == Trace[i].names[k] IN
   IF \E j \in 1..Len(Lex) : Lex[j] = b THEN LexBlock(b, Trace[i].src) ELSE ConfiguredBlock(b, Trace[i].src, Trace[i].cfg)]
Init == \E k \in 1..Chunks : l = Lo(k) /\ last = Hi(k) /\ l <= last /\ want = Specified(l)
NextRecord == l < last /\ l' = l + 1 /\ want' = Specified(l + 1) /\ UNCHANGED last
Spec == Init /\ [][NextRecord]_vars
Rec == Trace[l]
Wrong == {k \in 1..Len(want) : ~SameResult(want[k], Rec.res.got[k])}
Conforms == l <= last => ~Rec.res.panic /\ Wrong = {}
Diag == [record |-> l, spec |-> IF Rec.res.panic THEN <<>> ELSE [k \in Wrong |-> <<Rec.names[k], want[k]>>]]
Alias == [l |-> l, diag |-> ToJson(Diag)]
=============================================================================
