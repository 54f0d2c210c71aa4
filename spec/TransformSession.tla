-------------------------- MODULE TransformSession --------------------------
(***************************************************************************)
(* Histories of a transform: edits are recorded one by one, then the       *)
(* transform is applied to a fragment, position by position.               *)
(* Original event number p is <<"o", p>>, the event inserted by the k-th   *)
(* edit is <<"i", k>>.                                                     *)
(***************************************************************************)
EXTENDS SgmlTransform, TLC, Json, IOUtils
CONSTANTS MaxLen, Beyond       \* fragment lengths 0..MaxLen; positions up to Beyond past the end
Depth == atoi(IOEnv.DEPTH)
VARIABLES n, ops, room, tr, phase, cur, out
vars == <<n, ops, room, tr, phase, cur, out>>
Orig == [p \in 1..n |-> <<"o", p - 1>>]

Huge == 2000000000
Positions == 0..(n + Beyond) \cup {Huge}
Init == n \in 0..MaxLen /\ ops = <<>> /\ room = Depth /\ tr = TInit /\ phase = "record" /\ cur = 0 /\ out = <<>>
Do(op) == /\ phase = "record" /\ room > 0 /\ room' = room - 1
          /\ ops' = Append(ops, op) /\ tr' = TRecord(tr, op) /\ UNCHANGED <<n, phase, cur, out>>
Insert(p) == Do(<<"ins", p, <<"i", Len(ops) + 1>>>>)
Remove(p) == Do(<<"del", p>>)
\* many insertions in a row, alternating between two positions, after at most one other edit
Many == 26
RECURSIVE DoAll(_, _)
DoAll(t, os) == IF os = <<>> THEN t ELSE DoAll(TRecord(t, Head(os)), Tail(os))
Burst(p) == LET os == [k \in 1..Many |-> <<"ins", p + (k % 2), <<"i", Len(ops) + k>>>>]
            IN phase = "record" /\ Len(ops) < 2 /\ room >= Depth - 1 /\ ops' = ops \o os /\ tr' = DoAll(tr, os) /\ room' = 0 /\ UNCHANGED <<n, phase, cur, out>>
Apply == phase = "record" /\ phase' = "apply" /\ UNCHANGED <<n, ops, room, tr, cur, out>>
Visit == /\ phase = "apply" /\ cur < n
         /\ out' = out \o TVisit(tr, Orig, cur) /\ cur' = cur + 1 /\ UNCHANGED <<n, ops, room, tr, phase>>
Finish == /\ phase = "apply" /\ cur = n
          /\ out' = out \o TEnd(tr, n) /\ phase' = "done" /\ UNCHANGED <<n, ops, room, tr, cur>>
Next == (\E p \in Positions : Insert(p) \/ Remove(p)) \/ (\E p \in 0..n : Burst(p)) \/ Apply \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"
Report == Done => PrintT(ToJson(<<n, ops, out, TEmpty(tr)>>))
ASSUME PrintT(ToJson([huge |-> Huge]))
-----------------------------------------------------------------------------
Pos(e) == CHOOSE k \in 1..Len(out) : out[k] = e
Kept == {p \in 0..(n - 1) : \A k \in 1..Len(ops) : ops[k] # <<"del", p>>}
Inserts == {k \in 1..Len(ops) : ops[k][1] = "ins"}
\* C19: exactly the originals that were not removed, and every inserted event, once each
Complete == Done => /\ Len(out) = Cardinality(Kept) + Cardinality(Inserts)
                    /\ {out[k] : k \in 1..Len(out)} = {<<"o", p>> : p \in Kept} \cup {<<"i", k>> : k \in Inserts}
\* originals stay in order; an inserted event comes after everything before its position and before
\* everything from its position on; equal positions keep the order of the calls
Ordered == Done =>
   /\ \A p, q \in Kept : p < q => Pos(<<"o", p>>) < Pos(<<"o", q>>)
   /\ \A k \in Inserts, p \in Kept : IF p < ops[k][2] THEN Pos(<<"o", p>>) < Pos(<<"i", k>>) ELSE Pos(<<"i", k>>) < Pos(<<"o", p>>)
   /\ \A j, k \in Inserts : ops[j][2] < ops[k][2] \/ (ops[j][2] = ops[k][2] /\ j < k) => Pos(<<"i", j>>) < Pos(<<"i", k>>)
NoEditsNoChange == Done /\ ops = <<>> => out = Orig
OnlyEmptyIsEmpty == TEmpty(tr) <=> ops = <<>>
\* the order of two consecutive calls matters only if both insert at the same position
Swap(k) == [ops EXCEPT ![k] = ops[k + 1], ![k + 1] = ops[k]]
Commutes == Done => \A k \in 1..(Len(ops) - 1) :
   ~(ops[k][1] = "ins" /\ ops[k + 1][1] = "ins" /\ ops[k][2] = ops[k + 1][2]) => TResult(Orig, Swap(k)) = out
\* the state determines the result, however it was reached
StateDetermines == Done => out = TResult(Orig, ops)
=============================================================================
