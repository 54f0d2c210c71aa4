----------------------------- MODULE SgmlFamily -----------------------------
(***************************************************************************)
(* Families of inputs that grow without bound, with their outcomes in      *)
(* closed form.  A rope is a sequence of pieces: O(x) occurs once, M(x)    *)
(* occurs n times in a row.  Texts are ropes of characters; fragments are  *)
(* ropes of events, whose texts are ropes again.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
O(x) == <<0, x>>
M(x) == <<1, x>>
RECURSIVE Rep(_, _), Cat(_, _)
Rep(u, n) == IF n = 0 THEN <<>> ELSE u \o Rep(u, n - 1)
\* the n-th member of a rope
Cat(r, n) == IF r = <<>> THEN <<>> ELSE (IF r[1][1] = 0 THEN r[1][2] ELSE Rep(r[1][2], n)) \o Cat(Tail(r), n)
EventOf(e, n) == [k \in 1..Len(e) |-> IF k = 1 THEN e[k] ELSE Cat(e[k], n)]
EventsOf(r, n) == LET es == Cat(r, n) IN [k \in 1..Len(es) |-> EventOf(es[k], n)]
=============================================================================
