------------------------------- MODULE MC_C09 -------------------------------
(* C09: declarations and instructions are preserved or ignored. *)
EXTENDS ParserSession
T == << S("<r>"), S("<!D"), S(" "), S("x"), S("\""), S("'"), S("--"), S("["), S("]"), S(">"), S("<!E y>"), S("<?xml"),
        S("<!-- > -->"), S("<"), S("</r>") >>
C == << DefaultCfg, [DefaultCfg EXCEPT !.ignD = TRUE], [DefaultCfg EXCEPT !.ignP = TRUE],
        [DefaultCfg EXCEPT !.ignD = TRUE, !.ignP = TRUE] >>
F == << <<<<2>>, <<10, 1>>>>, <<<<12>>, <<1>>>>, <<<<1>>, <<15>>>>, <<<<2, 3, 8>>, <<9, 10, 1>>>>, <<<<>>, <<1>>>> >>
Dropped == (IF Cfg.ignD THEN {"decl"} ELSE {}) \cup (IF Cfg.ignP THEN {"pi"} ELSE {})
IgnoreIsFiltering ==
   Final /\ cfg # 1 => LET p == ParseToks(toks, C[1]) IN
      POk(st) = POk(p) /\ (POk(st) => st.out = NotKind(p.out, Dropped))
\* a declaration's body is the source text between its keyword and its end, trimmed
KeptInFull ==
   Final /\ cfg = 1 /\ POk(st) =>
      \A i \in 1..Len(st.out) :
         LET e == st.out[i] IN
         /\ e[1] = "decl" => Contains(Src, e[3]) /\ Contains(Src, <<"<", "!">> \o e[2])
         /\ e[1] = "pi"   => Contains(Src, e[2]) /\ Find(e[2], 1, <<">">>) = Len(e[2])
DeclarationsOnlyInProlog ==
   Final /\ POk(st) => \A i, j \in 1..Len(st.out) : st.out[i][1] = "decl" /\ st.out[j][1] \in {"open", "end", "text"} => i < j
=============================================================================
