----------------------------- MODULE SgmlMessage -----------------------------
(***************************************************************************)
(* What a parse error message says besides the line it points at (C32):    *)
(* which character was expected and what was found, and in which           *)
(* constructs, begun where.  All of it are facts about the source.         *)
(***************************************************************************)
EXTENDS SgmlReport

StartsWith(s, i, p) == i >= 1 /\ i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

\* How a character is shown
Shown(c) == CASE c \in {" ", "\t"} -> S("whitespace")
              [] c \in {"\n", "\r"} -> S("end of line")
              [] c \in {"'", "\"", "\\"} -> <<"'", "\\", c, "'">>
              [] c = "\f" -> S("'\\u{c}'")
              [] Len(c) = 1 -> <<"'", c, "'">>
              [] OTHER -> <<"'", "\\", "u", "{">> \o Tail(S(c)) \o <<"}", "'">>
Found(src, at) == IF at > Len(src) THEN S("end of input") ELSE Shown(src[at])

\* Does a construct the message calls ctx begin at p?
Begins(ctx, src, p) ==
   CASE ctx \in {S("comment declaration"), S("markup declaration")} -> StartsWith(src, p, S("<!"))
     [] ctx = S("marked section declaration") -> StartsWith(src, p, S("<!["))
     [] ctx = S("declaration subset") -> StartsWith(src, p, S("["))
     [] ctx = S("processing instruction") -> StartsWith(src, p, S("<?"))
     [] ctx = S("start tag") -> StartsWith(src, p, S("<"))
     [] ctx = S("end tag") -> StartsWith(src, p, S("</"))
     [] ctx = S("character reference") -> StartsWith(src, p, S("&#"))
     [] ctx = S("entity") -> StartsWith(src, p, S("&")) \/ StartsWith(src, p, S("%"))
     [] ctx = S("attribute") -> p <= Len(src) /\ p > 1 /\ src[p] \notin Space \cup {"<", ">", "/", "=", "'", "\""}
     [] ctx = S("attribute value") -> \E q \in 1..(p - 1) : src[q] = "=" /\ \A r \in (q + 1)..(p - 1) : src[r] \in Space
     \* (what would close a construct is not there)
     [] ctx = S("comment declaration close (\"-->\")") -> ~StartsWith(src, p, S("-->"))
     [] ctx = S("marked section end (\"]]>\")") -> ~StartsWith(src, p, S("]]>"))
     [] ctx = S("processing instruction end (\">\")") -> ~StartsWith(src, p, S(">"))
     [] ctx = S("nested marked section pair") -> StartsWith(src, p - 3, S("<!["))
     [] OTHER -> TRUE

\* where line number n starts, or 0
RECURSIVE StartOfLine(_, _, _)
StartOfLine(src, i, n) == IF n = 1 THEN i
   ELSE LET e == SkipNotIn(src, i, {"\n"}) IN IF e > Len(src) THEN 0 ELSE StartOfLine(src, e + 1, n - 1)

\* The place that line number n, quote and caret point at: the last one before or at most, where ctx begins; 0 if there is none
PlaceOf(src, n, quote, caret, ctx, most) ==
   LET ls == IF n = 0 THEN 0 ELSE StartOfLine(src, 1, n) IN
   IF ls = 0 THEN 0
   ELSE LET line == LineText(src, ls)
            P == {p \in ls..(ls + Len(line) + 1) : p <= most /\ Begins(ctx, src, p) /\ Points(quote, caret, line, p - ls + 1)}
        IN IF P = {} THEN 0 ELSE MaxOf(P)

\* Lines (k-2)..k of the message, as a note on an enclosing construct
Started == S(", started at ")
Note(mls, k) ==
   LET h == mls[k - 2]
       q == Find(h, 1, Started)
       r == q + Len(Started)
       same == StartsWith(h, r, S("the same "))
       d == (IF same THEN r + 9 ELSE r) + 5
   IN [ctx |-> SubSeq(h, 6, q - 1), same |-> same, line |-> ReadNum(h, d, 0), ok |-> StartsWith(h, d - 5, S("line ")) /\ IsCaret(mls[k])]
IsNote(mls, k) == k >= 6 /\ StartsWith(mls[k - 2], 1, S("From ")) /\ Find(mls[k - 2], 1, Started) > 0

\* The notes end with line k of the message and follow one another, innermost first.
\* first: the first of these lines, with everything before it being the head
RECURSIVE FirstNote(_, _)
FirstNote(mls, k) == IF IsNote(mls, k) THEN FirstNote(mls, k - 3) ELSE k + 1
RECURSIVE NotesTrue(_, _, _, _, _)
NotesTrue(src, mls, i, num, most) ==
   IF i + 2 > Len(mls) THEN TRUE
   ELSE LET n == Note(mls, i + 2)
            p == PlaceOf(src, n.line, mls[i + 1], mls[i + 2], n.ctx, most)
        IN /\ n.ok /\ n.same = (n.line = num) /\ n.line <= num
           /\ p > 0
           /\ NotesTrue(src, mls, i + 3, n.line, p)

In == S("parse error in ")
MessageOk(src, at, msg) ==
   src = <<>> \/
   LET mls == SplitLines(msg, 1)
       last == IF mls[Len(mls)] = <<>> THEN Len(mls) - 1 ELSE Len(mls)
       first == FirstNote(mls, last)
       a == Find(msg, 1, S(", at line "))
       g == Find(msg, 1, S("', got "))
       num == Count(src, "\n", at - 1) + 1
   IN /\ StartsWith(msg, 1, In) => a > 0 /\ Begins(SubSeq(msg, Len(In) + 1, a - 1), src, at)
      /\ g > 0 => StartsWith(msg, g + 7, Found(src, at) \o <<"\n">>)
      /\ NotesTrue(src, SubSeq(mls, 1, last), first, num, at)
\* The character the message says was expected, as <<c>>
Expected(msg) == LET g == Find(msg, 1, S("', got ")) IN IF g > 1 THEN <<msg[g - 1]>> ELSE <<>>
=============================================================================
