--------------------------- MODULE SgmlNormalize ---------------------------
(***************************************************************************)
(* Insertion of omitted end tags.                                          *)
(*                                                                         *)
(* The machine reads the events from first to last, keeping the start tags *)
(* that are still open.  An end tag belongs to the innermost open start    *)
(* tag of its name; the start tags opened inside that one have no end tag. *)
(* When everything has been read, the missing end tags are put in.         *)
(***************************************************************************)
EXTENDS SgmlProps

IsTag(e) == e[1] \in {"open", "end"}
EmptyNamed(e) == IsTag(e) /\ e[2] = <<>>

\* i: next event; open: positions of the open start tags; has: start tags that have their end tag;
\* stray: end tags without a start tag
NInit == [i |-> 1, open |-> <<>>, has |-> {}, stray |-> {}, cur |-> 0]
\* index in the stack of the innermost open start tag with that name, 0 if there is none
Innermost(evs, open, name) == MaxOf({0} \cup {k \in 1..Len(open) : evs[open[k]][2] = name})
NStep(evs, st) ==
   LET e == evs[st.i]
       nx == [st EXCEPT !.i = @ + 1]
   IN CASE e[1] = "open"   -> [nx EXCEPT !.open = Append(@, st.i)]
        [] e[1] = "xclose" -> (IF st.open = <<>> THEN nx   \* not in a start tag: not well-formed
                               ELSE [nx EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)])
        [] e[1] = "end"    ->
             LET k == Innermost(evs, st.open, e[2])
             IN IF k = 0 THEN [nx EXCEPT !.stray = @ \cup {st.i}]
                ELSE [nx EXCEPT !.open = SubSeq(@, 1, k - 1), !.has = @ \cup {st.open[k]}]
        [] OTHER -> nx
NRead(evs, st) == st.i > Len(evs)
RECURSIVE NRun(_, _)
NRun(evs, st) == IF NRead(evs, st) THEN st ELSE NRun(evs, NStep(evs, st))

NFails(evs, st) == st.stray # {} \/ \E k \in 1..Len(evs) : EmptyNamed(evs[k])
\* what the error may be
NErrors(evs, st) == {<<"empty", <<>>>> : k \in {j \in 1..Len(evs) : EmptyNamed(evs[j])}}
                    \cup {<<"unpaired", evs[k][2]>> : k \in st.stray}

\* the closing of the start tag at i
RECURSIVE ClosingOf(_, _)
ClosingOf(evs, i) == IF evs[i][1] \in {"close", "xclose"} THEN i ELSE ClosingOf(evs, i + 1)
RECURSIVE NextTag(_, _)
NextTag(evs, i) == IF i > Len(evs) \/ IsTag(evs[i]) THEN i ELSE NextTag(evs, i + 1)
\* before the blank text in front of position p
RECURSIVE BeforeBlank(_, _)
BeforeBlank(evs, p) == IF p > 1 /\ evs[p - 1][1] = "text" /\ IsBlank(evs[p - 1][2]) THEN BeforeBlank(evs, p - 1) ELSE p
\* where the missing end tag of the start tag at i goes (before the event at that position)
PlaceOf(evs, i) == LET c == ClosingOf(evs, i) IN
                   IF evs[c][1] = "xclose" THEN c + 1 ELSE BeforeBlank(evs, NextTag(evs, i + 1))
Missing(evs, st) == {i \in 1..Len(evs) : evs[i][1] = "open" /\ i \notin st.has}

\* the missing end tags, as pairs <<place, name>> in the order of their start tags; there is at most
\* one per place, and places are in the same order
RECURSIVE Places(_, _, _)
Places(evs, st, i) == IF i > Len(evs) THEN <<>>
   ELSE (IF evs[i][1] = "open" /\ i \notin st.has THEN << <<PlaceOf(evs, i), evs[i][2]>> >> ELSE <<>>) \o Places(evs, st, i + 1)
RECURSIVE Build(_, _, _)
Build(evs, i, pl) ==
   IF pl # <<>> /\ pl[1][1] = i THEN <<<<"end", pl[1][2]>>>> \o Build(evs, i, Tail(pl))
   ELSE IF i > Len(evs) THEN <<>>
   ELSE <<IF evs[i][1] = "xclose" THEN <<"close">> ELSE evs[i]>> \o Build(evs, i + 1, pl)
NResult(evs, st) == Build(evs, 1, Places(evs, st, 1))
\* <<ok, events>>
Normalize(evs) == LET st == NRun(evs, NInit) IN IF NFails(evs, st) THEN <<FALSE, <<>>>> ELSE <<TRUE, NResult(evs, st)>>

-----------------------------------------------------------------------------
(* Properties of fragments *)
\* every start tag has its end tag, properly nested (no XML-style closings)
RECURSIVE Balanced(_, _, _)
Balanced(evs, i, open) ==
   IF i > Len(evs) THEN open = <<>>
   ELSE LET e == evs[i] IN
        CASE e[1] = "open" -> Balanced(evs, i + 1, Append(open, e[2]))
          [] e[1] = "end"  -> open # <<>> /\ open[Len(open)] = e[2] /\ Balanced(evs, i + 1, SubSeq(open, 1, Len(open) - 1))
          [] e[1] = "xclose" -> FALSE
          [] OTHER -> Balanced(evs, i + 1, open)
IsBalanced(evs) == Balanced(evs, 1, <<>>)
\* Could the events be balanced by inserting end tags only?  Every end tag in i..j must be given a start tag
\* in i..j, without crossing.
XmlEmpty(evs, i) == evs[ClosingOf(evs, i)][1] = "xclose"
RECURSIVE Balanceable(_, _, _)
Balanceable(evs, i, j) ==
   LET E == {k \in i..j : evs[k][1] = "end"} IN
   E = {} \/ LET z == MaxOf(E) IN
             \E s \in i..(z - 1) : /\ evs[s][1] = "open" /\ evs[s][2] = evs[z][2] /\ ~XmlEmpty(evs, s)
                                   /\ Balanceable(evs, i, s - 1) /\ Balanceable(evs, s + 1, z - 1)
=============================================================================
