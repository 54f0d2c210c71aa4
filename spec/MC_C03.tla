------------------------------- MODULE MC_C03 -------------------------------
(* C03: tags and attributes are reported exactly as written. *)
EXTENDS ParserSession
T == << S("<a"), S(">"), S(" "), S("x"), S("="), S("\""), S("'"), S("1"), S("/"), S("&"), <<"\n">>,
        <<"ue9">>, S("-"), S("</a"), S("<"), S("b=c"), <<"\r">>, <<"\t">> >>
C == << DefaultCfg >>
F == << <<<<1>>, <<>>>>, <<<<1, 3>>, <<2>>>>, <<<<14>>, <<2>>>>, <<<<15>>, <<>>>>, <<<<1, 3, 4, 5>>, <<2>>>>, <<<<1, 3, 4, 5, 6>>, <<6, 2>>>> >>
Sound == Final /\ POk(st) => WellFormed(st.out)
\* The canonical spelling of tags: one space before each attribute, values quoted, references for quotes and "&".
RECURSIVE Quote(_, _)
Quote(v, i) == IF i > Len(v) THEN <<>>
               ELSE (CASE v[i] = "\"" -> S("&#34;") [] v[i] = "&" -> S("&#38;") [] OTHER -> <<v[i]>>) \o Quote(v, i + 1)
Spell(e) == CASE e[1] = "open"   -> <<"<">> \o e[2]
              [] e[1] = "attr0"  -> <<" ">> \o e[2]
              [] e[1] = "attr"   -> <<" ">> \o e[2] \o <<"=", "\"">> \o Quote(e[3], 1) \o <<"\"">>
              [] e[1] = "close"  -> <<">">>
              [] e[1] = "xclose" -> <<"/", ">">>
              [] e[1] = "end"    -> <<"<", "/">> \o e[2] \o <<">">>
              [] OTHER           -> e[2]
RECURSIVE SpellAll(_, _)
SpellAll(evs, i) == IF i > Len(evs) THEN <<>> ELSE Spell(evs[i]) \o SpellAll(evs, i + 1)
\* a successful reading is the reading of its canonical spelling
Canonical == Final /\ POk(st) => LET p == Parse(SpellAll(st.out, 1), Cfg) IN POk(p) /\ p.out = st.out
=============================================================================
