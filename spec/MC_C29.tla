------------------------------- MODULE MC_C29 -------------------------------
(* C29: every public building block matches exactly its construct.  A text is composed token by token and handed to all *)
(* of them under one configuration. *)
EXTENDS SgmlBlocks, Json, IOUtils
TAll == << S("<"), S("!"), S("-"), S("--"), S("["), S("]"), S("]]>"), S(">"), S("/"), S("?"), S("a"), S("B"), S("1"), S(" "),
        S("\n"), S("\""), S("'"), S("="), S("&l;"), S("&u;"), S("%p;"), S("CDATA"), S("Ignore "), S("include["), <<"uc9">>,
        S("&#x3C;"), S("\f"), S("rcdata") >>
\* a smaller alphabet for longer texts
TFew == << S("<"), S("!"), S("--"), S("["), S("]"), S(">"), S("a"), S(" "), S("\""), S("="), S("&l;"), S("%p;") >>
T == IF IOEnv.ALPHA = "all" THEN TAll ELSE TFew
F == << <<>>, S("<!["), S("<!--"), S("<!d "), S("<a "), S("</"), S("<?"), S("<![INCLUDE["), S("<![CDATA["), S("a = "), S("x]]"),
        S("<![ %p; ["), S("<a b='"), S("<![temp[<![ignore[") >>
E == << <<S("l"), S("<")>> >>
P == << <<S("p"), S("RCDATA")>> >>
C == << [DefaultCfg EXCEPT !.ents = E, !.pents = P],
        [DefaultCfg EXCEPT !.sect = "all", !.names = "lower", !.ents = E, !.pents = P, !.ignP = TRUE],
        [DefaultCfg EXCEPT !.sect = "keep", !.names = "upper", !.trim = FALSE, !.ignD = TRUE, !.ents = E] >>

Depth == atoi(IOEnv.DEPTH)
VARIABLES src, room, cfg
vars == <<src, room, cfg>>
Init == \E f \in 1..Len(F) : src = F[f] /\ room = (IF f = 1 THEN Depth ELSE Depth - 1) /\ cfg = 0
Compose(t) == cfg = 0 /\ room > 0 /\ src' = src \o T[t] /\ room' = room - 1 /\ UNCHANGED cfg
\* (with the larger alphabet, two of the three configurations)
Call(c) == cfg = 0 /\ (IOEnv.ALPHA = "all" => c # 2 + (Len(src) % 2)) /\ cfg' = c /\ UNCHANGED <<src, room>>
Next == (\E t \in 1..Len(T) : Compose(t)) \/ (\E c \in 1..Len(C) : Call(c))
Spec == Init /\ [][Next]_vars
Called == cfg # 0
Cfg == C[cfg]
R == All(src, Cfg)

\* A recognizer sees only what it consumes: the rest of the text does not matter to what it yields.
Whole == {"raw.is_name_start_char", "raw.is_name_char", "text.is_sgml_whitespace", "marked_sections.from_keywords",
   "marked_sections.from_str", "config.trim", "config.parse_rcdata", "config.parse_markup_declaration_text", "names.normalize",
   "sections.parse_keywords"}
\* (the blocks that do not depend on the configuration are looked at once)
Looked == {k \in 1..Len(AllNames) : AllNames[k] \notin Whole}
Local(r) == \A k \in Looked :
   (k > Len(Lex) \/ cfg = 1) /\ r[k][1] > 0 /\ r[k][1] <= Len(src) => LET s == Slice(src, 1, r[k][1]) IN
      r[k] = IF k <= Len(Lex) THEN LexBlock(Lex[k], s) ELSE ConfiguredBlock(Configured[k - Len(Lex)], s, Cfg)
InRange(r) == \A k \in 1..Len(AllNames) : r[k][1] <= Len(src) + 1
Index == [b \in {AllNames[k] : k \in 1..Len(AllNames)} |-> CHOOSE k \in 1..Len(AllNames) : AllNames[k] = b]

\* A document is its leading blanks and comments, its prolog and its content, one after the other.
Rest(s, i) == SubSeq(s, i, Len(s))
Assembled == LET a == LexBlock("util.comments_and_spaces", src)
                 s1 == Rest(src, a[1])
                 p == ConfiguredBlock("events.prolog", s1, Cfg)
                 s2 == Rest(s1, p[1])
                 c == ConfiguredBlock("events.content", s2, Cfg)
             IN IF a[1] = 0 THEN No ELSE IF p[1] = 0 THEN No
                ELSE IF c[1] # Len(s2) + 1 THEN No ELSE Yes(Len(src) + 1, p[2] \o c[2])
\* Content is one item or comment after the other.
RECURSIVE ItemByItem(_, _)
ItemByItem(s, evs) == LET c == LexBlock("raw.comment_declaration", s)
                          i == ConfiguredBlock("events.content_item", s, Cfg) IN
   IF AtComment(s, 1) THEN (IF c[1] = 0 THEN No ELSE ItemByItem(Rest(s, c[1]), evs))
   ELSE IF i[1] > 0 THEN ItemByItem(Rest(s, i[1]), evs \o i[2])
   ELSE Yes(Len(src) - Len(s) + 1, evs)
Composed(r) == LET con == r[Index["events.content"]]  it == r[Index["events.content_item"]] IN
   /\ r[Index["events.document_entity"]] = Assembled
   /\ con[1] > 0 => it[1] > 0 /\ con = ItemByItem(src, <<>>)
\* Each event block consumes what its raw counterpart does, unless a reference in it is undefined.
Pairs == << <<"events.markup_declaration", "raw.markup_declaration">>, <<"events.processing_instruction", "raw.processing_instruction">>,
            <<"events.text", "raw.text">>, <<"events.text/stop", "raw.text/stop">>, <<"events.open_start_tag", "raw.open_start_tag">>,
            <<"events.attribute", "raw.attribute">>, <<"events.marked_section_body/cdata", "raw.marked_section_body_character_data">>,
            <<"events.marked_section_body/ignore", "raw.marked_section_body_ignore">> >>
Counterparts(r) == \A i \in 1..Len(Pairs) :
   LET a == r[Index[Pairs[i][1]]]  b == r[Index[Pairs[i][2]]] IN
   /\ a[1] > 0 => a[1] = b[1]
   /\ b[1] > 0 /\ (\A j \in 1..Len(src) : src[j] # "&") => a[1] = b[1]

Report == Called => LET r == R IN
   Local(r) /\ InRange(r) /\ Composed(r) /\ Counterparts(r) /\ PrintT(ToJson(<<src, cfg, r>>))
ASSUME PrintT(ToJson([cfgs |-> C, names |-> AllNames]))
=============================================================================
