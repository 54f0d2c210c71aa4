----------------------------- MODULE SgmlProps -----------------------------
(***************************************************************************)
(* Vocabulary for stating properties of event sequences.                   *)
(***************************************************************************)
EXTENDS SgmlChars

TagEvents == {"open", "attr", "attr0", "close", "xclose"}

(* C02: a start tag is its opening, its attributes and one closing. *)
RECURSIVE Structured(_, _, _)
Structured(evs, i, inTag) ==
   IF i > Len(evs) THEN ~inTag
   ELSE LET k == evs[i][1] IN
        IF inTag THEN CASE k \in {"attr", "attr0"}   -> Structured(evs, i + 1, TRUE)
                        [] k \in {"close", "xclose"} -> Structured(evs, i + 1, FALSE)
                        [] OTHER                     -> FALSE
        ELSE CASE k = "open" -> Structured(evs, i + 1, TRUE)
               [] k \in {"attr", "attr0", "close", "xclose"} -> FALSE
               [] OTHER -> Structured(evs, i + 1, FALSE)
WellFormed(evs) == Structured(evs, 1, FALSE)
\* whether the sequence may be extended to a well-formed one
RECURSIVE StructuredPrefix(_, _, _)
StructuredPrefix(evs, i, inTag) ==
   IF i > Len(evs) THEN TRUE
   ELSE LET k == evs[i][1] IN
        IF inTag THEN CASE k \in {"attr", "attr0"}   -> StructuredPrefix(evs, i + 1, TRUE)
                        [] k \in {"close", "xclose"} -> StructuredPrefix(evs, i + 1, FALSE)
                        [] OTHER                     -> FALSE
        ELSE CASE k = "open" -> StructuredPrefix(evs, i + 1, TRUE)
               [] k \in {"attr", "attr0", "close", "xclose"} -> FALSE
               [] OTHER -> StructuredPrefix(evs, i + 1, FALSE)

IsText(e) == e[1] = "text"
\* adjacent texts joined, empty texts dropped
RECURSIVE MergeFrom(_, _, _)
MergeFrom(evs, i, acc) ==
   IF i > Len(evs) THEN acc
   ELSE LET e == evs[i] IN
        IF ~IsText(e) THEN MergeFrom(evs, i + 1, Append(acc, e))
        ELSE IF e[2] = <<>> THEN MergeFrom(evs, i + 1, acc)
        ELSE IF acc # <<>> /\ IsText(acc[Len(acc)])
             THEN MergeFrom(evs, i + 1, [acc EXCEPT ![Len(acc)] = <<"text", acc[Len(acc)][2] \o e[2]>>])
        ELSE MergeFrom(evs, i + 1, Append(acc, e))
Merge(evs) == MergeFrom(evs, 1, <<>>)

\* events of the given kinds only / all but those
OfKind(evs, K)  == SelectSeq(evs, LAMBDA e : e[1] \in K)
NotKind(evs, K) == SelectSeq(evs, LAMBDA e : e[1] \notin K)

\* the same events with every tag and attribute name mapped
MapName(e, F(_)) == CASE e[1] \in {"open", "end", "attr0"} -> <<e[1], F(e[2])>>
                      [] e[1] = "attr"                     -> <<"attr", F(e[2]), e[3]>>
                      [] OTHER                             -> e
MapNames(evs, F(_)) == [i \in 1..Len(evs) |-> MapName(evs[i], F)]
=============================================================================
