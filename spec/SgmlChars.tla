----------------------------- MODULE SgmlChars -----------------------------
(***************************************************************************)
(* Characters and character sequences.                                     *)
(*                                                                         *)
(* A text is a sequence of characters.  A character is a string: ASCII     *)
(* printable characters and tab, newline, carriage return and form feed    *)
(* stand for themselves (one-character strings); every other character is  *)
(* written "u" followed by its code point in lower-case hexadecimal        *)
(* ("ue9" is e-acute, "u0" is NUL).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The text written as a TLA+ string literal (ASCII only).
S(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]

Space == {" ", "\t", "\r", "\n"}            \* SGML white space; not form feed
AsciiWs == Space \cup {"\f"}                  \* separates status keywords

LowerLetters == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
                 "n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpperLetters == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
                 "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}

AsciiUp == [c \in LowerLetters |->
   CASE c="a"->"A" [] c="b"->"B" [] c="c"->"C" [] c="d"->"D" [] c="e"->"E" [] c="f"->"F"
     [] c="g"->"G" [] c="h"->"H" [] c="i"->"I" [] c="j"->"J" [] c="k"->"K" [] c="l"->"L"
     [] c="m"->"M" [] c="n"->"N" [] c="o"->"O" [] c="p"->"P" [] c="q"->"Q" [] c="r"->"R"
     [] c="s"->"S" [] c="t"->"T" [] c="u"->"U" [] c="v"->"V" [] c="w"->"W" [] c="x"->"X"
     [] c="y"->"Y" [] c="z"->"Z"]
AsciiDown == [c \in UpperLetters |-> CHOOSE l \in LowerLetters : AsciiUp[l] = c]

(***************************************************************************)
(* Non-ASCII characters.  Every letter, digit or symbol outside ASCII that *)
(* the generators put into a NAME has an entry here; in text any character *)
(* may occur.                                                              *)
(***************************************************************************)
UniCase == [   \* letters with a case mapping: <<lower, upper>>
   ue9   |-> <<<<"ue9">>, <<"uc9">>>>,        \* e acute
   uc9   |-> <<<<"ue9">>, <<"uc9">>>>,        \* E acute
   udf   |-> <<<<"udf">>, <<"S","S">>>>,      \* sharp s
   ufb01 |-> <<<<"ufb01">>, <<"F","I">>>>,    \* fi ligature
   u130  |-> <<<<"i","u307">>, <<"u130">>>>,  \* dotted capital I
   u131  |-> <<<<"u131">>, <<"I">>>>,         \* dotless i
   u1c4  |-> <<<<"u1c6">>, <<"u1c4">>>>,      \* DZ caron, upper
   u1c5  |-> <<<<"u1c6">>, <<"u1c4">>>>,      \* DZ caron, title case
   u1c6  |-> <<<<"u1c6">>, <<"u1c4">>>>,      \* DZ caron, lower
   u3c3  |-> <<<<"u3c3">>, <<"u3a3">>>>,      \* sigma
   u3c2  |-> <<<<"u3c2">>, <<"u3a3">>>>,      \* final sigma
   u416  |-> <<<<"u436">>, <<"u416">>>>,      \* Zhe
   u436  |-> <<<<"u436">>, <<"u416">>>>,
   u24b6 |-> <<<<"u24d0">>, <<"u24b6">>>>,    \* circled A (a symbol, but alphabetic)
   u24d0 |-> <<<<"u24d0">>, <<"u24b6">>>>,
   u2160 |-> <<<<"u2170">>, <<"u2160">>>>,    \* roman numeral one
   u2170 |-> <<<<"u2170">>, <<"u2160">>>>,
   uff21 |-> <<<<"uff41">>, <<"uff21">>>>,    \* full-width A
   uff41 |-> <<<<"uff41">>, <<"uff21">>>>,
   uff23 |-> <<<<"uff43">>, <<"uff23">>>>,
   uff43 |-> <<<<"uff43">>, <<"uff23">>>>,
   u10400 |-> <<<<"u10428">>, <<"u10400">>>>, \* Deseret
   u10428 |-> <<<<"u10428">>, <<"u10400">>>>]
UniCased == DOMAIN UniCase
UniAlpha == UniCased \cup {"u984c", "u3042", "u5d0", "u1d400", "u3a3"}   \* uncased letters, and capital sigma (see ToLower)
UniNumeric == {"ub2", "u663", "ubd", "u2460", "u1d7ce"}                  \* alphanumeric, not alphabetic

NameStart == LowerLetters \cup UpperLetters \cup UniAlpha
NameChar  == NameStart \cup Digits \cup UniNumeric \cup {".", "-", "_", ":"}

LowerOf(c) == IF c \in UpperLetters THEN <<AsciiDown[c]>>
              ELSE IF c \in UniCased THEN UniCase[c][1] ELSE <<c>>
UpperOf(c) == IF c \in LowerLetters THEN <<AsciiUp[c]>>
              ELSE IF c \in UniCased THEN UniCase[c][2] ELSE <<c>>

RECURSIVE FlatMap(_, _, _)
FlatMap(F(_), s, i) == IF i > Len(s) THEN <<>> ELSE F(s[i]) \o FlatMap(F, s, i + 1)
\* first position >= i whose character is not in C
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN SkipIn(s, i + 1, C) ELSE i
RECURSIVE BackIn(_, _, _, _)
BackIn(s, lo, j, C) == IF j >= lo /\ s[j] \in C THEN BackIn(s, lo, j - 1, C) ELSE j
\* A capital sigma is a final one if there are letters with a case before it and none after it (full stops and colons
\* are passed over).
Passed == {".", ":"}
CasedLetter == LowerLetters \cup UpperLetters \cup UniCased \cup {"u3a3", "u1d400"}
FinalSigma(s, i) ==
   LET b == BackIn(s, 1, i - 1, Passed)
       a == SkipIn(s, i + 1, Passed)
   IN b >= 1 /\ s[b] \in CasedLetter /\ ~(a <= Len(s) /\ s[a] \in CasedLetter)
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN <<>>
                   ELSE (IF s[i] # "u3a3" THEN LowerOf(s[i]) ELSE IF FinalSigma(s, i) THEN <<"u3c2">> ELSE <<"u3c3">>) \o LowerFrom(s, i + 1)
ToLower(s) == LowerFrom(s, 1)
ToUpper(s) == FlatMap(UpperOf, s, 1)
\* ASCII-only comparison, as used for keywords and booleans
AsciiLowerChar(c) == IF c \in UpperLetters THEN AsciiDown[c] ELSE c
AsciiLower(s) == [i \in 1..Len(s) |-> AsciiLowerChar(s[i])]

(***************************************************************************)
(* Scanning.  Positions are 1-based; Len(s)+1 is the end of the text.      *)
(***************************************************************************)
At(s, i, pat) == /\ i + Len(pat) - 1 <= Len(s)
                 /\ \A k \in 1..Len(pat) : s[i + k - 1] = pat[k]
\* first position >= i whose character is in C, or the end
RECURSIVE SkipNotIn(_, _, _)
SkipNotIn(s, i, C) == IF i <= Len(s) /\ s[i] \notin C THEN SkipNotIn(s, i + 1, C) ELSE i
\* first occurrence of pat at or after i; 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, i, pat) == IF i + Len(pat) - 1 > Len(s) THEN 0
                   ELSE IF s[i] = pat[1] /\ At(s, i, pat) THEN i ELSE Find(s, i + 1, pat)

SkipSp(s, i) == SkipIn(s, i, Space)
SkipName(s, i) == SkipIn(s, i, NameChar)
Slice(s, i, j) == SubSeq(s, i, j - 1)                \* [i, j)
\* bounds of the trimmed part of [i, j): a pair <<lo, hi>> with Slice(s, lo, hi) trimmed
TrimBounds(s, i, j) == LET lo0 == SkipIn(s, i, Space)
                           lo  == IF lo0 > j THEN j ELSE lo0
                           hi  == BackIn(s, lo, j - 1, Space) + 1
                       IN <<lo, hi>>
Trim(s) == LET b == TrimBounds(s, 1, Len(s) + 1) IN Slice(s, b[1], b[2])
IsBlank(s) == \A i \in 1..Len(s) : s[i] \in Space
Contains(s, pat) == Len(pat) = 0 \/ Find(s, 1, pat) > 0

MinOf(A) == CHOOSE x \in A : \A y \in A : x <= y
MaxOf(A) == CHOOSE x \in A : \A y \in A : x >= y
=============================================================================
