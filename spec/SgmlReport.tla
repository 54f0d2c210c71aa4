----------------------------- MODULE SgmlReport -----------------------------
(***************************************************************************)
(* The rendered error message (C14): it states the line number of the      *)
(* reported place, quotes that line -- possibly shortened -- and puts a    *)
(* caret under the character at that place.                                *)
(***************************************************************************)
EXTENDS SgmlChars

RECURSIVE SplitLines(_, _)
SplitLines(s, i) == LET e == SkipNotIn(s, i, {"\n"}) IN
   IF e > Len(s) THEN <<Slice(s, i, e)>> ELSE <<Slice(s, i, e)>> \o SplitLines(s, e + 1)

DigitOf == [c \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE ReadNum(_, _, _)
ReadNum(s, i, acc) == IF i <= Len(s) /\ s[i] \in Digits THEN ReadNum(s, i + 1, acc * 10 + DigitOf[s[i]]) ELSE acc

Count(s, c, n) == Cardinality({i \in 1..n : s[i] = c})
LineStart(s, at) == LET B == {i \in 1..at - 1 : s[i] = "\n"} IN IF B = {} THEN 1 ELSE MaxOf(B) + 1
LineText(s, from) == LET e == SkipNotIn(s, from, {"\n"})
                         f == IF e > from /\ s[e - 1] = "\r" /\ e <= Len(s) THEN e - 1 ELSE e
                     IN Slice(s, from, f)
Dots == <<".", ".", ".">>
WholeUpTo == 30      \* a line this short is quoted whole
ShortenOver == 200   \* a line longer than this is shortened ...
ExcerptMax == 120    \* ... to at most this

IsCaret(m) == Len(m) >= 1 /\ m[Len(m)] = "^" /\ \A i \in 1..Len(m) - 1 : m[i] = " "
\* line[o + 1 ..] is quoted in excerpt x after pre (0 or 3) characters and before post (0 or 3)
QuotesFrom(x, line, o, pre, post) ==
   LET m == Len(x) - pre - post IN
   /\ m >= 0 /\ o >= 0 /\ o + m <= Len(line)
   /\ pre = 3 => SubSeq(x, 1, 3) = Dots
   /\ post = 3 => SubSeq(x, Len(x) - 2, Len(x)) = Dots
   /\ pre = 0 => o = 0
   /\ post = 0 => o + m = Len(line)
   /\ \A i \in 1..m : x[pre + i] = line[o + i]
\* column of the place in the line, column of the caret
Points(x, caret, line, col) ==
   \E pre \in {0, 3}, post \in {0, 3} :
      LET o == col - Len(caret) + pre IN       \* the caret is right for exactly one offset
      /\ QuotesFrom(x, line, o, pre, post)
      /\ Len(line) <= WholeUpTo => pre = 0 /\ post = 0
      /\ Len(line) > ShortenOver => Len(x) <= ExcerptMax
      /\ Len(caret) > pre /\ (Len(caret) <= Len(x) - post \/ post = 0)

ReportOk(src, at, msg) ==
   src = <<>> \/
   LET ls    == LineStart(src, at)
       line  == LineText(src, ls)
       col   == at - ls + 1
       num   == Count(src, "\n", at - 1) + 1
       p     == Find(msg, 1, S("line "))
       mls   == SplitLines(msg, 1)
   IN /\ p > 0 /\ p + 5 <= Len(msg) /\ msg[p + 5] \in Digits /\ ReadNum(msg, p + 5, 0) = num
      /\ \E k \in 2..Len(mls) - 1 : IsCaret(mls[k + 1]) /\ Points(mls[k], mls[k + 1], line, col)
=============================================================================
