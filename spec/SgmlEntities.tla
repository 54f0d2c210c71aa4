--------------------------- MODULE SgmlEntities ---------------------------
(***************************************************************************)
(* Expansion of general entity / character references ("&...") and of      *)
(* parameter entity references ("%...").                                   *)
(*                                                                         *)
(* A lookup table is a sequence of pairs <<name, text>> (both texts).      *)
(* The expander is a machine that walks over the text: see ExpStep.        *)
(***************************************************************************)
EXTENDS SgmlChars

HexVal == [c \in {"0","1","2","3","4","5","6","7","8","9",
                  "a","b","c","d","e","f","A","B","C","D","E","F"} |->
   CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4 [] c="5"->5 [] c="6"->6
     [] c="7"->7 [] c="8"->8 [] c="9"->9 [] c \in {"a","A"}->10 [] c \in {"b","B"}->11
     [] c \in {"c","C"}->12 [] c \in {"d","D"}->13 [] c \in {"e","E"}->14 [] c \in {"f","F"}->15]

MaxCode == 1114111                                    \* U+10FFFF
\* value of the digits s[i..j-1] in the given base, saturating just above MaxCode; -1 if not a number
RECURSIVE NumVal(_, _, _, _, _)
NumVal(s, i, j, base, acc) ==
   IF i = j THEN acc
   ELSE IF s[i] \notin DOMAIN HexVal \/ (s[i] \in DOMAIN HexVal /\ HexVal[s[i]] >= base) THEN -1
   ELSE LET v == IF acc > MaxCode THEN acc ELSE acc * base + HexVal[s[i]]
        IN NumVal(s, i + 1, j, base, v)

IsScalar(n) == n >= 0 /\ n <= MaxCode /\ ~(n >= 55296 /\ n <= 57343)

AsciiPrintable ==
 <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
   "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
   "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
   "[","\\","]","^","_","`",
   "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
   "{","|","}","~">>
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexStr(n \div 16) \o HexDigit[(n % 16) + 1]
\* the character with code point n
CharOf(n) == IF n >= 32 /\ n <= 126 THEN AsciiPrintable[n - 31]
             ELSE CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 12 -> "\f" [] n = 13 -> "\r"
                    [] OTHER -> "u" \o HexStr(n)

(***************************************************************************)
(* RefAt(s, i, kind): the reference whose prefix character is at i.        *)
(*  [next |-> 0]                     no reference: the prefix is literal   *)
(*  [next, name |-> <<>>, char]      a character reference                 *)
(*  [next, name, char |-> ""]        a reference to be looked up           *)
(***************************************************************************)
NoRef == [next |-> 0, name |-> <<>>, char |-> ""]
Semi(s, i) == IF i <= Len(s) /\ s[i] = ";" THEN i + 1 ELSE i

NamedRef(s, i) ==     \* i: position after the prefix; an optional "#", then a name
   LET b == IF i <= Len(s) /\ s[i] = "#" THEN i + 1 ELSE i
   IN IF b <= Len(s) /\ s[b] \in NameStart
      THEN LET e == SkipName(s, b) IN [next |-> Semi(s, e), name |-> Slice(s, i, e), char |-> ""]
      ELSE NoRef

NumRef(s, i, from, base) ==   \* digits s[from..], the reference text starting at i (the "#")
   LET e == IF base = 10 THEN SkipIn(s, from, Digits) ELSE SkipName(s, from)
       v == NumVal(s, from, e, base, 0)
   IN IF IsScalar(v) THEN [next |-> Semi(s, e), name |-> <<>>, char |-> CharOf(v)]
      ELSE [next |-> Semi(s, e), name |-> Slice(s, i, e), char |-> ""]

RefAt(s, p, kind) ==
   LET i == p + 1 IN
   IF kind = "%" THEN NamedRef(s, i)
   ELSE IF i < Len(s) /\ s[i] = "#" /\ s[i + 1] \in Digits THEN NumRef(s, i, i + 1, 10)
   ELSE IF i + 1 < Len(s) /\ s[i] = "#" /\ s[i + 1] = "x" /\ s[i + 2] \in NameChar
        THEN NumRef(s, i, i + 2, 16)
   ELSE NamedRef(s, i)

LookupIdx(tab, name) == {k \in 1..Len(tab) : tab[k][1] = name}

(***************************************************************************)
(* The expander.  State: position, output, the names looked up so far, and *)
(* whether it failed (on which name, over which source range [from, to)).  *)
(***************************************************************************)
ExpInit == [pos |-> 1, out |-> <<>>, done |-> FALSE, ok |-> TRUE, name |-> <<>>, from |-> 0, to |-> 0, calls |-> <<>>]
ExpStep(s, tab, kind, st) ==
   LET p == SkipNotIn(s, st.pos, {kind}) IN
   IF p > Len(s) THEN [st EXCEPT !.out = @ \o Slice(s, st.pos, p), !.pos = p, !.done = TRUE]
   ELSE LET r    == RefAt(s, p, kind)
            lit  == st.out \o Slice(s, st.pos, p)
            hits == LookupIdx(tab, r.name)
        IN IF r.next = 0 THEN [st EXCEPT !.out = Append(lit, kind), !.pos = p + 1]
           ELSE IF r.char # "" THEN [st EXCEPT !.out = Append(lit, r.char), !.pos = r.next]
           ELSE IF hits # {} THEN [st EXCEPT !.out = lit \o tab[MinOf(hits)][2], !.pos = r.next, !.calls = Append(@, r.name)]
           ELSE [st EXCEPT !.done = TRUE, !.ok = FALSE, !.name = r.name, !.from = p, !.to = r.next,
                             !.calls = Append(@, r.name)]
RECURSIVE ExpRun(_, _, _, _)
ExpRun(s, tab, kind, st) == IF st.done THEN st ELSE ExpRun(s, tab, kind, ExpStep(s, tab, kind, st))

Expand(s, tab)      == ExpRun(s, tab, "&", ExpInit)
ExpandParam(s, tab) == ExpRun(s, tab, "%", ExpInit)
=============================================================================
