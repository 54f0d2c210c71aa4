--------------------------- MODULE SgmlTransform ---------------------------
(***************************************************************************)
(* Transforms: edits recorded against the original positions of a sequence *)
(* of events, and their application.  Positions are 0-based.               *)
(*                                                                         *)
(* An edit is <<"ins", position, event>> or <<"del", position>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TInit == [ins |-> <<>>, del |-> {}]
TRecord(t, op) == IF op[1] = "ins" THEN [t EXCEPT !.ins = Append(@, <<op[2], op[3]>>)]
                  ELSE [t EXCEPT !.del = @ \cup {op[2]}]
TEmpty(t) == t.ins = <<>> /\ t.del = {}

EventsOf(xs) == [k \in 1..Len(xs) |-> xs[k][2]]
\* the events inserted at a position, in the order they were recorded
InsertedAt(t, p) == EventsOf(SelectSeq(t.ins, LAMBDA x : x[1] = p))

(* Application walks over the original positions. *)
TVisit(t, orig, p) == InsertedAt(t, p) \o (IF p \in t.del THEN <<>> ELSE <<orig[p + 1]>>)
RECURSIVE TTail(_, _)      \* insertions at the given positions, by position
TTail(t, P) == IF P = {} THEN <<>>
               ELSE LET p == CHOOSE q \in P : \A r \in P : q <= r
                    IN InsertedAt(t, p) \o TTail(t, P \ {p})
TEnd(t, n) == TTail(t, {x \in {t.ins[k][1] : k \in 1..Len(t.ins)} : x >= n})

RECURSIVE TFrom(_, _, _), TAll(_, _, _)
TFrom(t, orig, p) == IF p = Len(orig) THEN TEnd(t, p) ELSE TVisit(t, orig, p) \o TFrom(t, orig, p + 1)
TApply(t, orig) == TFrom(t, orig, 0)
TAll(t, ops, k) == IF k > Len(ops) THEN t ELSE TAll(TRecord(t, ops[k]), ops, k + 1)
TResult(orig, ops) == TApply(TAll(TInit, ops, 1), orig)
=============================================================================
