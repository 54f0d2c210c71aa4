------------------------------- MODULE MC_C05 -------------------------------
(* C05: comments never affect the result. *)
EXTENDS ParserSession
T == << S("<!-- x -->"), S("<!>"), S("<!----  ---->"), S("<!-- ><b>\"]]> -->"), S("<!-- x"), S("<!-x-->"),
        S("<a>"), S("</a>"), S("x"), S(" "), S("<![INCLUDE["), S("]]>"), S("<?p>"), S("--y--") >>
C == << [DefaultCfg EXCEPT !.sect = "all"], [DefaultCfg EXCEPT !.sect = "all", !.trim = FALSE] >>
F == << <<<<>>, <<>>>>, <<<<7>>, <<>>>> >>
Comments == 1..4
Malformed == {5, 6}
\* removing the comment declarations
Bare == SelectSeq(toks, LAMBDA t : t \notin Comments)
\* A comment between two texts separates them, so texts are compared after joining; with
\* trimming, joined texts differ in inner white space, so this is compared without trimming
\* unless no text stands next to a comment.
TextToks == {9, 10, 14}
Separates == \E i \in 2..Len(toks) - 1 : /\ toks[i] \in Comments
                                       /\ \E a \in 1..i - 1 : toks[a] \in TextToks /\ \A k \in a + 1..i : toks[k] \in Comments \cup TextToks
\* a comment that is read as one: not swallowed by an unfinished construct
Invisible ==
   Final /\ (\A i \in 1..Len(toks) : toks[i] \notin Malformed) /\ (~Cfg.trim \/ ~Separates) =>
      LET p == ParseToks(Bare, Cfg) IN
      /\ POk(st) = POk(p)
      /\ POk(st) => Merge(st.out) = Merge(p.out)
MalformedRejected == Final /\ (\E i \in 1..Len(toks) : toks[i] = 6) /\ (\A i \in 1..Len(toks) : toks[i] # 5) => ~POk(st)
=============================================================================
