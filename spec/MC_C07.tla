------------------------------- MODULE MC_C07 -------------------------------
(* C07: INCLUDE sections are transparent. *)
EXTENDS ParserSession
T == << S("<r>"), S("<![INCLUDE["), S("<![ temp ["), S("<![[") , S("]]>"), S("<a x='1'>"), S("</a>"), S("x"), S(" "),
        S("<!-- ]]> -->"), S("&u;"), S("<!D>"), S("<?p ]]>"), S("<![CDATA[y]]>"), S("<a"), S("<![IGNORE[<![]]>"), S("]]") >>
C == << [DefaultCfg EXCEPT !.sect = "all", !.trim = FALSE], [DefaultCfg EXCEPT !.sect = "all"] >>
F == << <<<<1>>, <<>>>>, <<<<1, 2>>, <<5>>>>, <<<<1, 8, 2>>, <<5, 8>>>>, <<<<2>>, <<5, 1>>>> >>
Opens == {2, 3, 4}
\* the document without the delimiters of its INCLUDE sections; unbalanced if one is not closed
RECURSIVE Strip(_, _, _, _)
Strip(ts, i, depth, acc) ==
   IF i > Len(ts) THEN [ok |-> depth = 0, toks |-> acc]
   ELSE IF ts[i] \in Opens THEN Strip(ts, i + 1, depth + 1, acc)
   ELSE IF ts[i] = 5 /\ depth > 0 THEN Strip(ts, i + 1, depth - 1, acc)
   ELSE Strip(ts, i + 1, depth, Append(acc, ts[i]))
\* unfinished tags and IGNORE sections make tokens part of other constructs
Plain == ~Has(15) /\ ~Has(16)
Transparent ==
   Final /\ Plain /\ toks[1] = 1 =>
      LET b == Strip(toks, 1, 0, <<>>)
          p == ParseToks(b.toks, Cfg)
      IN /\ POk(st) = (b.ok /\ POk(p))
         /\ POk(st) /\ ~Cfg.trim => Merge(st.out) = Merge(p.out)
         /\ POk(st) => NotKind(st.out, {"text"}) = NotKind(p.out, {"text"})
InvalidNotSkipped == Final /\ Plain /\ (Has(11) \/ (Has(12) /\ Has(1) /\ toks[1] = 1)) => ~POk(st)
=============================================================================
