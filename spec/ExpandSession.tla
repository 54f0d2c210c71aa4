--------------------------- MODULE ExpandSession ---------------------------
(***************************************************************************)
(* Direct calls of the expansion functions.  A text is composed token by   *)
(* token, a function ("&" or "%") is chosen, and the expander runs: one    *)
(* action per kind of thing it meets.                                      *)
(***************************************************************************)
EXTENDS SgmlEntities, Json, IOUtils
CONSTANTS Toks, Tabs      \* texts; lookup tables
Depth == atoi(IOEnv.DEPTH)
VARIABLES toks, room, kind, tab, ex
vars == <<toks, room, kind, tab, ex>>

RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE Toks[ts[i]] \o Flat(ts, i + 1)
Src == Flat(toks, 1)
Called == kind # ""
Final == Called /\ ex.done

Init == toks = <<>> /\ room = Depth /\ kind = "" /\ tab = 0 /\ ex = ExpInit
Compose(t) == ~Called /\ room > 0 /\ toks' = Append(toks, t) /\ room' = room - 1 /\ UNCHANGED <<kind, tab, ex>>
Call(k, t) == ~Called /\ kind' = k /\ tab' = t /\ room' = 0 /\ UNCHANGED <<toks, ex>>
\* what the expander does next
Next1 == ExpStep(Src, Tabs[tab], kind, ex)
Stepping == Called /\ ~ex.done /\ ex' = Next1 /\ UNCHANGED <<toks, room, kind, tab>>
CopyRest     == Stepping /\ Next1.done /\ Next1.ok
RejectName   == Stepping /\ Next1.done /\ ~Next1.ok
LookUp       == Stepping /\ ~Next1.done /\ Len(Next1.calls) > Len(ex.calls)
LiteralOrChar == Stepping /\ ~Next1.done /\ Len(Next1.calls) = Len(ex.calls)
Next == \/ \E t \in 1..Len(Toks) : Compose(t)
        \/ \E k \in {"&", "%"}, t \in 1..Len(Tabs) : Call(k, t)
        \/ CopyRest \/ RejectName \/ LookUp \/ LiteralOrChar
Spec == Init /\ [][Next]_vars

Outcome == IF ex.ok THEN <<"ok", ex.out, ex.calls>> ELSE <<"err", ex.name, ex.from, ex.to, ex.calls>>
Report == Final => PrintT(ToJson(<<toks, kind, tab, Outcome>>))
ASSUME PrintT(ToJson([toks |-> Toks, tabs |-> Tabs]))

-----------------------------------------------------------------------------
\* C11, C12: text without a reference is unchanged, and nothing is looked up
NoReference == Final /\ (\A i \in 1..Len(Src) : Src[i] # kind) => ex.ok /\ ex.out = Src /\ ex.calls = <<>>
\* the prefix character of the other kind of reference is an ordinary character
OtherKindIgnored == Final /\ ex.ok /\ (\A i \in 1..Len(Src) : Src[i] # kind) => ex.out = Src
\* C11: expansion of a concatenation at a place where no reference is open is the concatenation:
\* definitions are not scanned again and context does not matter
Splits(i) == i > 1 /\ i <= Len(toks) /\ Toks[toks[i]][1] \in {" ", kind} 
Compositional ==
   Final => \A i \in 2..Len(toks) : Splits(i) =>
      LET a == ExpRun(Flat(SubSeq(toks, 1, i - 1), 1), Tabs[tab], kind, ExpInit)
          b == ExpRun(Flat(SubSeq(toks, i, Len(toks)), 1), Tabs[tab], kind, ExpInit)
      IN IF a.ok /\ b.ok THEN ex.ok /\ ex.out = a.out \o b.out /\ ex.calls = a.calls \o b.calls ELSE ~ex.ok
\* C13: a failure names a name that is not defined, found in the source at the reported range
FailureExact ==
   Final /\ ~ex.ok =>
      /\ LookupIdx(Tabs[tab], ex.name) = {}
      /\ Src[ex.from] = kind
      /\ LET r == Slice(Src, ex.from, ex.to) IN r \in {<<kind>> \o ex.name, <<kind>> \o ex.name \o <<";">>}
      /\ (ex.to <= Len(Src) => Slice(Src, ex.from, ex.to)[ex.to - ex.from] = ";" \/ Src[ex.to] # ";")
\* only undefined names make it fail
TotalWhenDefined == Final /\ ~ex.ok => ex.calls[Len(ex.calls)] = ex.name
Advance == [][Called /\ ~ex.done => ex'.pos > ex.pos \/ ex'.done]_vars
=============================================================================
