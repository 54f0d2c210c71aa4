----------------------------- MODULE SgmlRender -----------------------------
(***************************************************************************)
(* Writing fragments as markup, and what reading that markup gives.        *)
(***************************************************************************)
EXTENDS SgmlParser, SgmlProps, SgmlEscape

(* One way of writing each event. *)
RECURSIVE QuoteRefs(_, _)
QuoteRefs(v, i) == IF i > Len(v) THEN <<>>
                   ELSE (CASE v[i] = "\"" -> S("&#34;") [] v[i] = "&" -> S("&#38;") [] OTHER -> <<v[i]>>) \o QuoteRefs(v, i + 1)
WriteEvent(e) ==
   CASE e[1] = "open"   -> <<"<">> \o e[2]
     [] e[1] = "attr0"  -> <<" ">> \o e[2]
     [] e[1] = "attr"   -> <<" ">> \o e[2] \o S("=\"") \o QuoteRefs(e[3], 1) \o S("\"")
     [] e[1] = "close"  -> S(">")
     [] e[1] = "xclose" -> S("/>")
     [] e[1] = "end"    -> S("</") \o e[2] \o S(">")
     [] e[1] = "text"   -> Escape(e[2])
     [] e[1] = "pi"     -> e[2]
     [] e[1] = "decl"   -> S("<!") \o e[2] \o (IF e[3] = <<>> THEN <<>> ELSE <<" ">> \o e[3]) \o S(">")
     [] e[1] = "sect"   -> S("<![") \o e[2] \o S("[") \o e[3] \o S("]]>")
RECURSIVE WriteFrom(_, _)
WriteFrom(evs, i) == IF i > Len(evs) THEN <<>> ELSE WriteEvent(evs[i]) \o WriteFrom(evs, i + 1)
Write(evs) == WriteFrom(evs, 1)

(* Events before the first tag or text form the prolog. *)
Misc == {"decl", "pi", "sect"}
RECURSIVE StripProlog(_, _)
StripProlog(evs, i) ==     \* blanks before the first content are not content
   IF i > Len(evs) THEN <<>>
   ELSE IF evs[i][1] \in Misc THEN <<evs[i]>> \o StripProlog(evs, i + 1)
   ELSE IF IsText(evs[i])
   THEN LET t == Slice(evs[i][2], SkipSp(evs[i][2], 1), Len(evs[i][2]) + 1)
        IN IF t = <<>> THEN StripProlog(evs, i + 1) ELSE <<<<"text", t>>>> \o SubSeq(evs, i + 1, Len(evs))
   ELSE SubSeq(evs, i, Len(evs))
TrimKeywords(e) == IF e[1] = "sect" THEN <<"sect", Trim(e[2]), e[3]>> ELSE e
\* what is read back: adjacent texts joined, empty texts and blanks before the first content gone
Canon(evs) == LET m == Merge(StripProlog(Merge(evs), 1)) IN [i \in 1..Len(m) |-> TrimKeywords(m[i])]

RereadCfg(cfg) == [cfg EXCEPT !.trim = FALSE, !.sect = "keep", !.names = "keep", !.ignD = FALSE, !.ignP = FALSE]

(* The fragments that can be read back: well-formed, with some content, with the declarations before it, and with     *)
(* names the syntax allows. *)
IsName(n) == n # <<>> /\ n[1] \in NameStart /\ \A k \in 1..Len(n) : n[k] \in NameChar
NameOk(evs, i) == CASE evs[i][1] = "open" -> IsName(evs[i][2]) \/ (evs[i][2] = <<>> /\ i < Len(evs) /\ evs[i + 1] = <<"close">>)
                    [] evs[i][1] = "end"  -> IsName(evs[i][2]) \/ evs[i][2] = <<>>
                    [] evs[i][1] \in {"attr", "attr0", "decl"} -> IsName(evs[i][2])
                    [] OTHER -> TRUE
FirstContent(evs) == MinOf({i \in 1..Len(evs) : evs[i][1] \notin Misc} \cup {Len(evs) + 1})
Writable(evs) == LET c == Canon(evs) IN
   /\ WellFormed(evs) /\ \A i \in 1..Len(evs) : NameOk(evs, i)
   /\ FirstContent(c) <= Len(c)
   /\ \A i \in FirstContent(c)..Len(c) : c[i][1] # "decl"
\* C15
ReadsBack(text, evs, cfg) == LET p == Parse(text, RereadCfg(cfg)) IN POk(p) /\ p.out = Canon(evs)
=============================================================================
