---------------------------- MODULE SgmlBuilder ----------------------------
(***************************************************************************)
(* Configuring a parser.  A builder is a configuration; each call changes  *)
(* one setting of it:                                                      *)
(*   <<"trim", b>> <<"names", n>> <<"lowercase">> <<"uppercase">>          *)
(*   <<"sections", m>> <<"expand">> <<"declarations", b>>                  *)
(*   <<"instructions", b>> <<"entities", tab>> <<"parameters", tab>>       *)
(* The built parser parses any number of documents; each parse depends on  *)
(* the configuration and the document only.                                *)
(***************************************************************************)
EXTENDS SgmlParser

Field(call) == CASE call[1] = "trim" -> "trim"
                 [] call[1] \in {"names", "lowercase", "uppercase"} -> "names"
                 [] call[1] \in {"sections", "expand"} -> "sect"
                 [] call[1] = "declarations" -> "ignD"
                 [] call[1] = "instructions" -> "ignP"
                 [] call[1] = "entities" -> "ents"
                 [] call[1] = "parameters" -> "pents"

TrimWhitespace(c, b)       == [c EXCEPT !.trim = b]
NameNormalization(c, n)    == [c EXCEPT !.names = n]
SectionHandling(c, m)      == [c EXCEPT !.sect = m]
IgnoreDeclarations(c, b)   == [c EXCEPT !.ignD = b]
IgnoreInstructions(c, b)   == [c EXCEPT !.ignP = b]
ExpandEntities(c, t)       == [c EXCEPT !.ents = t]
ExpandParameters(c, t)     == [c EXCEPT !.pents = t]

Called(c, call) == CASE call[1] = "trim"         -> TrimWhitespace(c, call[2])
                     [] call[1] = "names"        -> NameNormalization(c, call[2])
                     [] call[1] = "lowercase"    -> NameNormalization(c, "lower")
                     [] call[1] = "uppercase"    -> NameNormalization(c, "upper")
                     [] call[1] = "sections"     -> SectionHandling(c, call[2])
                     [] call[1] = "expand"       -> SectionHandling(c, "all")
                     [] call[1] = "declarations" -> IgnoreDeclarations(c, call[2])
                     [] call[1] = "instructions" -> IgnoreInstructions(c, call[2])
                     [] call[1] = "entities"     -> ExpandEntities(c, call[2])
                     [] call[1] = "parameters"   -> ExpandParameters(c, call[2])
RECURSIVE AllCalled(_, _, _)
AllCalled(c, calls, i) == IF i > Len(calls) THEN c ELSE AllCalled(Called(c, calls[i]), calls, i + 1)
Configured(calls) == AllCalled(DefaultCfg, calls, 1)

\* what the parser yields for a document: the events, or the fact that it is rejected
Parsed(s, c) == LET p == Parse(s, c) IN IF POk(p) THEN <<"ok", p.out>> ELSE <<"err">>
\* what can be seen of a configuration without parsing a document, given a text with references of both kinds
Shown(c, s) == LET x == Expand(s, c.ents)  y == ExpandParam(s, c.pents) IN
   << c.trim, c.names, c.sect, c.ignD, c.ignP, IF c.trim THEN Trim(s) ELSE s,
      IF x.ok THEN <<x.out>> ELSE <<>>, IF y.ok THEN <<y.out>> ELSE <<>> >>
=============================================================================
