----------------------------- MODULE MC_BigEdits -----------------------------
(***************************************************************************)
(* C19: histories of edits that grow without bound, and what applying them *)
(* yields in closed form, which TLC checks for small members.  Original    *)
(* event number p is <<"o", p>>, the event inserted by the k-th edit is    *)
(* <<"i", k>>.                                                             *)
(***************************************************************************)
EXTENDS SgmlTransform, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
o(p) == <<"o", p>>
i(k) == <<"i", k>>
Ins(p, k) == <<"ins", p, i(k)>>
Del(p) == <<"del", p>>
Row(n, U(_)) == TLCEval([k \in 1..n |-> U(k)])
Os(n) == Row(n, LAMBDA k : o(k - 1))
Is(n) == Row(n, i)
\* a(1), b(1), a(2), b(2), ...
Zip(n, U(_), V(_)) == TLCEval([k \in 1..2 * n |-> IF k % 2 = 1 THEN U((k + 1) \div 2) ELSE V(k \div 2)])
Fam(nm, n, ops, out) == [name |-> nm, n |-> n, ops |-> ops, out |-> out]
Huge == 2000000000
N == 21
Family(f, n) ==
   CASE f = 1 -> Fam("many at the start", 2, Row(n, LAMBDA k : Ins(0, k)), Is(n) \o Os(2))
     [] f = 2 -> Fam("many in the middle", 2, Row(n, LAMBDA k : Ins(1, k)), <<o(0)>> \o Is(n) \o <<o(1)>>)
     [] f = 3 -> Fam("many at the end", 2, Row(n, LAMBDA k : Ins(2, k)), Os(2) \o Is(n))
     [] f = 4 -> Fam("many beyond the end", 2, Row(n, LAMBDA k : Ins(2 + k, k)), Os(2) \o Is(n))
     [] f = 5 -> Fam("many beyond the end, from the last", 2, Row(n, LAMBDA k : Ins(2 + n - k, k)), Os(2) \o Row(n, LAMBDA k : i(n + 1 - k)))
     [] f = 6 -> Fam("one before each", n, Row(n, LAMBDA k : Ins(k - 1, k)), Zip(n, i, LAMBDA k : o(k - 1)))
     [] f = 7 -> Fam("one before each, from the last", n, Row(n, LAMBDA k : Ins(n - k, k)), Zip(n, LAMBDA k : i(n + 1 - k), LAMBDA k : o(k - 1)))
     [] f = 8 -> Fam("all removed", n, Row(n, LAMBDA k : Del(k - 1)), <<>>)
     [] f = 9 -> Fam("all removed, from the last, twice", n, Row(2 * n, LAMBDA k : Del((2 * n - k) % n)), <<>>)
     [] f = 10 -> Fam("every second removed", 2 * n, Row(n, LAMBDA k : Del(2 * k - 2)), Row(n, LAMBDA k : o(2 * k - 1)))
     [] f = 11 -> Fam("every second removed, from the last", 2 * n, Row(n, LAMBDA k : Del(2 * (n - k) + 1)), Row(n, LAMBDA k : o(2 * k - 2)))
     [] f = 12 -> Fam("each replaced", n, Zip(n, LAMBDA k : Del(k - 1), LAMBDA k : Ins(k - 1, 2 * k)), Row(n, LAMBDA k : i(2 * k)))
     [] f = 13 -> Fam("each replaced, inserted first, from the last", n, Zip(n, LAMBDA k : Ins(n - k, 2 * k - 1), LAMBDA k : Del(n - k)), Row(n, LAMBDA k : i(2 * (n + 1 - k) - 1)))
     [] f = 14 -> Fam("at both ends alternately", n, Zip(n, LAMBDA k : Ins(n, 2 * k - 1), LAMBDA k : Ins(0, 2 * k)), Row(n, LAMBDA k : i(2 * k)) \o Os(n) \o Row(n, LAMBDA k : i(2 * k - 1)))
     [] f = 15 -> Fam("removed far beyond the end", n, Row(n, LAMBDA k : Del(n + k - 1)), Os(n))
     [] f = 16 -> Fam("one late edit in a long fragment", n, <<Ins(n - 1, 1)>>, Os(n - 1) \o <<i(1), o(n - 1)>>)
     [] f = 17 -> Fam("the last of a long fragment removed", n, <<Del(n - 1)>>, Os(n - 1))
     [] f = 18 -> Fam("nothing recorded", n, <<>>, Os(n))
     [] f = 19 -> Fam("appended to nothing", 0, Zip(n, LAMBDA k : Ins(0, 2 * k - 1), LAMBDA k : Ins(1, 2 * k)), Row(n, LAMBDA k : i(2 * k - 1)) \o Row(n, LAMBDA k : i(2 * k)))
     [] f = 20 -> Fam("at the greatest positions", n, Zip(n, LAMBDA k : Ins(Huge + 1, 2 * k - 1), LAMBDA k : Ins(Huge, 2 * k)), Os(n) \o Row(n, LAMBDA k : i(2 * k)) \o Row(n, LAMBDA k : i(2 * k - 1)))
     [] f = 21 -> Fam("removed, with many inserted before it", 3, <<Del(1)>> \o Row(n, LAMBDA k : Ins(1, k + 1)) \o <<Del(1), Ins(2, n + 3)>>, <<o(0)>> \o Row(n, LAMBDA k : i(k + 1)) \o <<i(n + 3), o(2)>>)

VARIABLES fam, n, got
vars == <<fam, n, got>>
Sizes == 1..6 \cup {9, 17, 21, 22, 33, 65, 129, 257, 300, 1025, Depth}
Init == fam \in 1..N /\ n \in Sizes /\ got = <<>>
\* the small ones are applied here
Make == /\ got = <<>> /\ UNCHANGED <<fam, n>>
        /\ LET f == Family(fam, n) IN got' = <<f, IF n <= 22 THEN TResult(Os(f.n), f.ops) ELSE f.out>>
Spec == Init /\ [][Make]_vars
ClosedForm == got # <<>> => got[2] = got[1].out
Report == got # <<>> => PrintT(ToJson(<<got[1].n, got[1].ops, got[1].out, got[1].ops = <<>> >>))
ASSUME PrintT(ToJson([huge |-> Huge]))
Alias == [fam |-> fam, n |-> n, name |-> Family(fam, 1).name, got |-> got]
=============================================================================
