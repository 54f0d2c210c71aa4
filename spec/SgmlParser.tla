---------------------------- MODULE SgmlParser ----------------------------
(***************************************************************************)
(* The parser as a machine.                                                *)
(*                                                                         *)
(* Configuration (a record):                                               *)
(*   trim, ignD, ignP : BOOLEAN      names : "keep" | "lower" | "upper"     *)
(*   sect : "keep" | "chars" | "all" ents, pents : lookup tables            *)
(*                                                                         *)
(* Events (tuples; names and texts are character sequences):               *)
(*   <<"open",n>> <<"attr",n,v>> <<"attr0",n>> <<"close">> <<"xclose">>     *)
(*   <<"end",n>> <<"text",v>> <<"pi",v>> <<"decl",n,v>> <<"sect",kw,v>>     *)
(*                                                                         *)
(* State (a record):                                                       *)
(*   phase : "prolog" | "content" | "done" | "err"                          *)
(*   pos   : next unread position      out : events so far                 *)
(*   n     : number of content items read at document level                *)
(*   stack : open INCLUDE sections, innermost last                         *)
(*   lo,hi : range of positions an error may be reported at                *)
(*   ek,en : kind of error ("", "syntax", "entity", "keyword") and the      *)
(*           undefined name                                                *)
(*                                                                         *)
(* Kind names the action enabled in a state; there is exactly one (the     *)
(* language is deterministic), and Step performs it.                       *)
(***************************************************************************)
EXTENDS SgmlEntities

------------------------------- (* results *) -------------------------------
Good(next, evs) == [ok |-> TRUE, next |-> next, evs |-> evs, lo |-> 0, hi |-> 0, ek |-> "", en |-> <<>>]
Bad(at)         == [ok |-> FALSE, next |-> 0, evs |-> <<>>, lo |-> at, hi |-> at, ek |-> "syntax", en |-> <<>>]
BadRef(at, name) == [Bad(at) EXCEPT !.ek = "entity", !.en = name]
BadKeyword(a, b) == [Bad(a) EXCEPT !.hi = b, !.ek = "keyword"]

Ch(s, i) == IF i <= Len(s) THEN s[i] ELSE ""

------------------------- (* lexical recognizers *) -------------------------
Dash2 == <<"-","-">>
MseClose == <<"]","]",">">>
MseOpen == <<"<","!","[">>

\* a comment "-- ... --" at i
Cmt(s, i) == LET e == Find(s, i + 2, Dash2)
             IN IF e = 0 THEN Bad(Len(s) + 1) ELSE Good(e + 2, <<>>)
\* after a comment of a comment declaration
RECURSIVE CmtRest(_, _)
CmtRest(s, j) == LET k == SkipSp(s, j) IN
   IF At(s, k, Dash2) THEN LET c == Cmt(s, k) IN IF c.ok THEN CmtRest(s, c.next) ELSE c
   ELSE IF Ch(s, j) = ">" THEN Good(j + 1, <<>>) ELSE Bad(j)
AtComment(s, i) == Ch(s, i) = "<" /\ Ch(s, i + 1) = "!" /\ Ch(s, i + 2) \in {"-", ">"}
CommentDecl(s, i) ==
   IF Ch(s, i + 2) = ">" THEN Good(i + 3, <<>>)
   ELSE IF ~At(s, i + 2, Dash2) THEN Bad(i + 2)
   ELSE LET c == Cmt(s, i + 2) IN IF c.ok THEN CmtRest(s, c.next) ELSE c

Quoted(s, i) == LET e == Find(s, i + 1, <<s[i]>>)
                IN IF e = 0 THEN Bad(Len(s) + 1) ELSE Good(e + 1, <<>>)

RECURSIVE DeclItems(_, _), SubsetItems(_, _), MarkupDecl(_, _)
\* the pieces of a declaration's body; .next is the position after the last one
DeclItems(s, i) ==
   LET j == SkipSp(s, i)
       c == Ch(s, j)
       then(r) == IF r.ok THEN DeclItems(s, r.next) ELSE r
   IN CASE c \in {"", "<", ">"}                  -> Good(i, <<>>)
        [] c = "-" /\ Ch(s, j + 1) = "-"         -> then(Cmt(s, j))
        [] c = "-" /\ Ch(s, j + 1) # "-"         -> DeclItems(s, j + 1)
        [] c \in {"\"", "'"}                     -> then(Quoted(s, j))
        [] c = "["                               -> then(SubsetItems(s, j + 1))
        [] OTHER -> DeclItems(s, SkipNotIn(s, j, {"<", ">", "\"", "'", "[", "-"} \cup Space))
\* inside [ ... ]; .next is the position after the closing bracket
SubsetItems(s, i) ==
   LET c == Ch(s, i)
       then(r) == IF r.ok THEN SubsetItems(s, r.next) ELSE r
   IN CASE c = "]"                               -> Good(i + 1, <<>>)
        [] AtComment(s, i)                       -> then(CommentDecl(s, i))
        [] c = "-" /\ Ch(s, i + 1) = "-"         -> then(Cmt(s, i))
        [] c \in {"\"", "'"}                     -> then(Quoted(s, i))
        [] c = "["                               -> then(SubsetItems(s, i + 1))
        [] c = "<" /\ Ch(s, i + 1) = "!" /\ Ch(s, i + 2) \in NameStart -> then(MarkupDecl(s, i))
        [] c \notin {"", "<", ">", "\"", "'", "[", "]", "-"} ->
              SubsetItems(s, SkipNotIn(s, i, {"<", ">", "\"", "'", "[", "]", "-"}))
        [] OTHER                                 -> Bad(i)
MarkupDecl(s, i) ==
   LET e == SkipName(s, i + 2)
       b == SkipSp(s, e)
       r == DeclItems(s, b)
       q == SkipSp(s, r.next)
   IN IF ~r.ok THEN r
      ELSE IF Ch(s, q) # ">" THEN Bad(q)
      ELSE Good(q + 1, <<<<"decl", Slice(s, i + 2, e), Slice(s, b, r.next)>>>>)
AtDecl(s, i) == Ch(s, i) = "<" /\ Ch(s, i + 1) = "!" /\ Ch(s, i + 2) \in NameStart

\* "<" begins markup only when followed by one of these
AtMarkup(s, i) ==
   /\ Ch(s, i) = "<"
   /\ LET c == Ch(s, i + 1)  d == Ch(s, i + 2) IN
      \/ c \in {"?", ">"}
      \/ c \in NameStart
      \/ c = "!" /\ (d \in {"-", "[", ">"} \/ d \in NameStart)
      \/ c = "/" /\ (d = ">" \/ d \in NameStart)

RECURSIVE TextEnd(_, _, _)
TextEnd(s, i, stop) ==
   LET k == SkipNotIn(s, i, {"<", "]"}) IN
   IF k > Len(s) THEN k
   ELSE IF AtMarkup(s, k) \/ (stop /\ At(s, k, MseClose)) THEN k
   ELSE TextEnd(s, k + 1, stop)

RECURSIVE IgnoreEnd(_, _, _)    \* position of the balancing "]]>", or 0
IgnoreEnd(s, i, depth) ==
   LET k == SkipNotIn(s, i, {"<", "]"}) IN
   IF k > Len(s) THEN 0
   ELSE IF At(s, k, MseOpen) THEN IgnoreEnd(s, k + 3, depth + 1)
   ELSE IF At(s, k, MseClose) THEN (IF depth = 0 THEN k ELSE IgnoreEnd(s, k + 3, depth - 1))
   ELSE IgnoreEnd(s, k + 1, depth)

--------------------------- (* names, keywords *) ---------------------------
NormName(n, cfg) == CASE cfg.names = "lower" -> ToLower(n)
                      [] cfg.names = "upper" -> ToUpper(n)
                      [] OTHER -> n

RECURSIVE Words(_, _)
Words(s, i) == LET b == SkipIn(s, i, AsciiWs)
                   e == SkipNotIn(s, b, AsciiWs)
               IN IF b > Len(s) THEN <<>> ELSE <<Slice(s, b, e)>> \o Words(s, e)

KwRank(w) == LET k == AsciiLower(w) IN
   CASE k = S("ignore") -> 3 [] k = S("cdata") -> 2 [] k = S("rcdata") -> 1
     [] k \in {S("include"), S("temp")} -> 0 [] OTHER -> -1
RankName == <<"include", "rcdata", "cdata", "ignore">>
\* status selected by a keyword list; "bad" if some keyword is unknown
Status(kw, mode) ==
   IF mode = "chars"
   THEN (IF KwRank(kw) \in {1, 2} THEN RankName[KwRank(kw) + 1] ELSE "bad")
   ELSE LET ws == Words(kw, 1)
            rs == {KwRank(ws[k]) : k \in 1..Len(ws)}
        IN IF -1 \in rs THEN "bad" ELSE RankName[MaxOf(rs \cup {0}) + 1]

------------------------------ (* constructs *) ------------------------------
Text(s, i, stop, cfg) ==
   LET e == TextEnd(s, i, stop)
       b == IF cfg.trim THEN TrimBounds(s, i, e) ELSE <<i, e>>
       x == Expand(Slice(s, b[1], b[2]), cfg.ents)
   IN IF b[1] = b[2] THEN Good(e, <<>>)
      ELSE IF x.ok THEN Good(e, <<<<"text", x.out>>>>)
      ELSE BadRef(b[1] - 1 + x.from, x.name)

RECURSIVE Attrs(_, _, _, _)
Attrs(s, j, cfg, acc) ==
   IF Ch(s, j) \in NameStart
   THEN LET ne == SkipName(s, j)
            k  == SkipSp(s, ne)
            v  == SkipSp(s, k + 1)
            nm == NormName(Slice(s, j, ne), cfg)
        IN IF Ch(s, k) # "=" THEN Attrs(s, k, cfg, Append(acc, <<"attr0", nm>>))
           ELSE IF Ch(s, v) \in {"\"", "'"}
           THEN LET q == Find(s, v + 1, <<s[v]>>) IN
                IF q = 0 THEN Bad(Len(s) + 1)
                ELSE LET x == Expand(Slice(s, v + 1, q), cfg.ents) IN
                     IF ~x.ok THEN BadRef(v + x.from, x.name)
                     ELSE Attrs(s, SkipSp(s, q + 1), cfg, Append(acc, <<"attr", nm, x.out>>))
           ELSE LET u == SkipNotIn(s, v, {"\"", "'", ">"} \cup Space) IN
                IF u = v THEN Bad(v)
                ELSE Attrs(s, SkipSp(s, u), cfg, Append(acc, <<"attr", nm, Slice(s, v, u)>>))
   ELSE IF Ch(s, j) = "/" /\ Ch(s, j + 1) = ">" THEN Good(j + 2, Append(acc, <<"xclose">>))
   ELSE IF Ch(s, j) = ">" THEN Good(j + 1, Append(acc, <<"close">>))
   ELSE Bad(j)
StartTag(s, i, cfg) ==
   LET e == SkipName(s, i + 1)
   IN Attrs(s, SkipSp(s, e), cfg, <<<<"open", NormName(Slice(s, i + 1, e), cfg)>>>>)
EmptyStartTag(s, i) == Good(i + 2, <<<<"open", <<>>>>, <<"close">>>>)
EndTag(s, i, cfg) ==
   LET e == SkipName(s, i + 2)
       q == IF e = i + 2 THEN e ELSE SkipSp(s, e)
   IN IF Ch(s, q) = ">" THEN Good(q + 1, <<<<"end", NormName(Slice(s, i + 2, e), cfg)>>>>) ELSE Bad(q)
Instruction(s, i, cfg) ==
   LET e == Find(s, i + 2, <<">">>)
   IN IF e = 0 THEN Bad(Len(s) + 1)
      ELSE Good(e + 1, IF cfg.ignP THEN <<>> ELSE <<<<"pi", Slice(s, i, e + 1)>>>>)
Declaration(s, i, cfg) ==
   LET r == MarkupDecl(s, i) IN IF r.ok /\ cfg.ignD THEN [r EXCEPT !.evs = <<>>] ELSE r

\* the opening of a marked section at i: keywords, status, start of the body
SectionHead(s, i, cfg) ==
   LET k == SkipNotIn(s, i + 3, {"[", "]", "<", ">", "!"})
       b == TrimBounds(s, i + 3, k)
       x == ExpandParam(Slice(s, b[1], b[2]), cfg.pents)
       st == IF x.ok THEN Status(x.out, cfg.sect) ELSE "bad"
       r == IF Ch(s, k) # "[" THEN Bad(k)
            ELSE IF ~x.ok THEN BadRef(b[1] - 1 + x.from, x.name)
            ELSE IF st = "bad" THEN BadKeyword(i + 3, k)
            ELSE Good(k + 1, <<>>)
   IN [r |-> r, status |-> st, kw |-> x.out]
\* a CDATA, RCDATA or IGNORE section whose body starts at b
FlatSection(s, b, status, kw, cfg) ==
   LET e == IF status = "ignore" THEN IgnoreEnd(s, b, 0) ELSE Find(s, b, MseClose)
       t == IF cfg.trim THEN TrimBounds(s, b, e) ELSE <<b, e>>
       x == Expand(Slice(s, t[1], t[2]), cfg.ents)
   IN IF e = 0 THEN Bad(Len(s) + 1)
      ELSE IF cfg.sect = "keep" THEN Good(e + 3, <<<<"sect", kw, Slice(s, b, e)>>>>)
      ELSE IF status = "ignore" THEN Good(e + 3, <<>>)
      ELSE IF status = "cdata" THEN Good(e + 3, <<<<"text", Slice(s, t[1], t[2])>>>>)
      ELSE IF x.ok THEN Good(e + 3, <<<<"text", x.out>>>>)
      ELSE BadRef(t[1] - 1 + x.from, x.name)

------------------------------ (* the machine *) -----------------------------
PInit == [phase |-> "prolog", pos |-> 1, out |-> <<>>, n |-> 0, stack |-> <<>>,
          lo |-> 0, hi |-> 0, ek |-> "", en |-> <<>>]

InFrame(st) == st.stack # <<>>
Halted(st)  == st.phase \in {"done", "err"}

Kind(s, st) ==
   LET c == Ch(s, st.pos)  d == Ch(s, st.pos + 1)  e == Ch(s, st.pos + 2) IN
   IF Halted(st) THEN "Halted"
   ELSE IF AtComment(s, st.pos) THEN "Comment"
   ELSE IF ~InFrame(st) /\ st.phase = "prolog" /\ c \in Space THEN "PrologSpace"
   ELSE IF InFrame(st) /\ At(s, st.pos, MseClose) THEN "CloseInclude"
   ELSE IF c = "<" /\ d = "!" /\ e = "[" THEN "Section"
   ELSE IF c = "<" /\ d = "?" THEN "Instruction"
   ELSE IF AtDecl(s, st.pos) THEN
        (IF ~InFrame(st) /\ st.phase = "prolog" THEN "Declaration" ELSE "MisplacedDeclaration")
   ELSE IF ~InFrame(st) /\ st.phase = "prolog" THEN "EnterContent"
   ELSE IF c = "" THEN
        (IF InFrame(st) THEN "UnclosedInclude" ELSE IF st.n = 0 THEN "NoContent" ELSE "Finish")
   ELSE IF ~AtMarkup(s, st.pos) THEN "Text"
   ELSE IF d = ">" THEN "EmptyStartTag"
   ELSE IF d = "/" THEN "EndTag"
   ELSE "StartTag"

Fail(st, r) == [st EXCEPT !.phase = "err", !.lo = r.lo, !.hi = r.hi, !.ek = r.ek, !.en = r.en]
\* consume a construct: emit its events, or fail
Take(st, r, item) ==
   IF ~r.ok THEN Fail(st, r)
   ELSE [st EXCEPT !.pos = r.next, !.out = @ \o r.evs,
                   !.n = IF item /\ st.phase = "content" /\ ~InFrame(st) THEN @ + 1 ELSE @]

DoSection(s, st, cfg) ==
   LET h == SectionHead(s, st.pos, cfg) IN
   IF ~h.r.ok THEN Fail(st, h.r)
   ELSE IF h.status = "include"
   THEN [st EXCEPT !.pos = h.r.next,
                   !.stack = Append(@, [kw |-> h.kw, start |-> h.r.next, mark |-> Len(st.out)])]
   ELSE Take(st, FlatSection(s, h.r.next, h.status, h.kw, cfg), TRUE)

DoCloseInclude(s, st, cfg) ==
   LET f  == st.stack[Len(st.stack)]
       up == [st EXCEPT !.pos = @ + 3, !.stack = SubSeq(@, 1, Len(@) - 1)]
       up2 == [up EXCEPT !.n = IF up.phase = "content" /\ ~InFrame(up) THEN @ + 1 ELSE @]
   IN IF cfg.sect = "keep"
      THEN [up2 EXCEPT !.out = Append(SubSeq(st.out, 1, f.mark), <<"sect", f.kw, Slice(s, f.start, st.pos)>>)]
      ELSE up2

Step(s, cfg, st) ==
   LET k == Kind(s, st) IN
   CASE k = "Halted"       -> st
     [] k = "Comment"      -> Take(st, CommentDecl(s, st.pos), FALSE)
     [] k = "PrologSpace"  -> [st EXCEPT !.pos = SkipSp(s, st.pos)]
     [] k = "CloseInclude" -> DoCloseInclude(s, st, cfg)
     [] k = "Section"      -> DoSection(s, st, cfg)
     [] k = "Instruction"  -> Take(st, Instruction(s, st.pos, cfg), TRUE)
     [] k = "Declaration"  -> Take(st, Declaration(s, st.pos, cfg), FALSE)
     [] k = "EnterContent" -> [st EXCEPT !.phase = "content"]
     [] k = "Text"         -> Take(st, Text(s, st.pos, InFrame(st), cfg), TRUE)
     [] k = "EmptyStartTag" -> Take(st, EmptyStartTag(s, st.pos), TRUE)
     [] k = "EndTag"       -> Take(st, EndTag(s, st.pos, cfg), TRUE)
     [] k = "StartTag"     -> Take(st, StartTag(s, st.pos, cfg), TRUE)
     [] k = "Finish"       -> [st EXCEPT !.phase = "done"]
     [] OTHER              -> Fail(st, Bad(st.pos))   \* MisplacedDeclaration, UnclosedInclude, NoContent

RECURSIVE PRun(_, _, _)
PRun(s, cfg, st) == IF Halted(st) THEN st ELSE PRun(s, cfg, Step(s, cfg, st))
Parse(s, cfg) == PRun(s, cfg, PInit)
POk(st) == st.phase = "done"

DefaultCfg == [trim |-> TRUE, names |-> "keep", sect |-> "chars", ignD |-> FALSE, ignP |-> FALSE,
               ents |-> <<>>, pents |-> <<>>]
=============================================================================
