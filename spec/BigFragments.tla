---------------------------- MODULE BigFragments ----------------------------
(***************************************************************************)
(* Fragments that grow without bound.  (TLCEval only makes TLC evaluate    *)
(* these once instead of for each element.)                                *)
(***************************************************************************)
EXTENDS SgmlChars, TLC
\* n copies of u in a row; u(1), ..., u(n) in a row, all of the same length
Many(u, n) == LET v == TLCEval(u) IN TLCEval([i \in 1..n * Len(v) |-> v[((i - 1) % Len(v)) + 1]])
Flat(us) == LET vs == TLCEval(us)
                w == IF vs = <<>> THEN 1 ELSE Len(vs[1])
            IN TLCEval([i \in 1..Len(vs) * w |-> vs[((i - 1) \div w) + 1][((i - 1) % w) + 1]])
Each(n, U(_)) == Flat([i \in 1..n |-> U(i)])
Nest(n, x, W(_)) == LET RECURSIVE N(_)
                        N(k) == IF k = 0 THEN x ELSE W(N(k - 1))
                    IN N(n)

\* events
O(n) == << <<"open", S(n)>> >>
C == << <<"close">> >>
X == << <<"xclose">> >>
Z(n) == << <<"end", S(n)>> >>
E(n, c) == O(n) \o C \o c \o Z(n)
EA(n, a, c) == O(n) \o a \o C \o c \o Z(n)
T(s) == << <<"text", S(s)>> >>
Tq(t) == << <<"text", t>> >>
A(k, v) == << <<"attr", S(k), S(v)>> >>
A0(k) == << <<"attr0", S(k)>> >>
R(c) == E("r", c)
RA(a, c) == EA("r", a, c)
\* a name of its own for each number
Nm(p, i) == S(p) \o S(ToString(i))
En(p, i, c) == << <<"open", Nm(p, i)>>, <<"close">> >> \o c \o << <<"end", Nm(p, i)>> >>
=============================================================================
