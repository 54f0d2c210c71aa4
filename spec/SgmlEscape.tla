----------------------------- MODULE SgmlEscape -----------------------------
(***************************************************************************)
(* Escaping of text.                                                       *)
(*                                                                         *)
(* The relation Escapes(src, out, mode) says what may be the escaped form  *)
(* of a text, whatever spelling of the references is used; the machine     *)
(* (EscNext) produces one such form, character by character.               *)
(***************************************************************************)
EXTENDS SgmlEntities

Angles == {"<", ">"}
NoAngles(out) == \A k \in 1..Len(out) : out[k] \notin Angles

\* out is src with each "<" and ">" replaced by a character reference, and each "&" too if
\* mode = "on", never if mode = "off", perhaps if mode = "mixed"
RECURSIVE Spells(_, _, _, _, _)
Spells(src, i, out, j, mode) ==
   IF i > Len(src) THEN j = Len(out) + 1
   ELSE IF j > Len(out) THEN FALSE
   ELSE LET c    == src[i]
            r    == IF out[j] = "&" THEN RefAt(out, j, "&") ELSE NoRef
            ref  == r.next > 0 /\ r.char = c /\ Spells(src, i + 1, out, r.next, mode)
            copy == out[j] = c /\ Spells(src, i + 1, out, j + 1, mode)
        IN CASE c \in Angles              -> ref
             [] c = "&" /\ mode = "on"    -> ref
             [] c = "&" /\ mode = "mixed" -> ref \/ copy
             [] OTHER                     -> copy
\* C16: with ampersands escaped, expanding the character references gives back the text
RoundTrips(src, out) == LET x == Expand(out, <<>>) IN x.ok /\ x.out = src
Escapes(src, out, mode) == /\ NoAngles(out)
                           /\ IF mode = "on" THEN RoundTrips(src, out) ELSE Spells(src, 1, out, 1, mode)

Digits2 == [c \in {"<", ">", "&"} |-> CASE c = "<" -> S("#60;") [] c = ">" -> S("#62;") [] c = "&" -> S("#38;")]
\* iterator state: position in the text, pending characters of a reference, the setting
EscInit(amp) == [i |-> 1, buf |-> <<>>, amp |-> amp]
EscDone(src, e) == e.buf = <<>> /\ e.i > Len(src)
EscChar(src, e) == IF e.buf # <<>> THEN e.buf[1]
                   ELSE IF src[e.i] \in Angles \/ (src[e.i] = "&" /\ e.amp) THEN "&" ELSE src[e.i]
EscNext(src, e) == IF e.buf # <<>> THEN [e EXCEPT !.buf = Tail(@)]
                   ELSE IF src[e.i] \in Angles \/ (src[e.i] = "&" /\ e.amp)
                   THEN [e EXCEPT !.i = @ + 1, !.buf = Digits2[src[e.i]]]
                   ELSE [e EXCEPT !.i = @ + 1]
RECURSIVE EscRest(_, _)
EscRest(src, e) == IF EscDone(src, e) THEN <<>> ELSE <<EscChar(src, e)>> \o EscRest(src, EscNext(src, e))
Escape(src) == EscRest(src, EscInit(TRUE))
=============================================================================
