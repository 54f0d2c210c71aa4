--------------------------- MODULE ParserActions ---------------------------
(***************************************************************************)
(* The transitions of the parser as TLA+ actions, one per kind of          *)
(* construct, over the variable st (the parser's state).  s is the text    *)
(* being parsed and c the configuration.  Exactly one action is enabled in *)
(* every state that is not final.                                          *)
(***************************************************************************)
EXTENDS SgmlParser
VARIABLE st

Act(k, s, c) == Kind(s, st) = k /\ st' = Step(s, c, st)

SkipComment(s, c)       == Act("Comment", s, c)
SkipPrologSpace(s, c)   == Act("PrologSpace", s, c)
ReadSection(s, c)       == Act("Section", s, c)
LeaveInclude(s, c)      == Act("CloseInclude", s, c)
ReadInstruction(s, c)   == Act("Instruction", s, c)
ReadDeclaration(s, c)   == Act("Declaration", s, c)
RejectDeclaration(s, c) == Act("MisplacedDeclaration", s, c)
StartContent(s, c)      == Act("EnterContent", s, c)
ReadText(s, c)          == Act("Text", s, c)
ReadEmptyStartTag(s, c) == Act("EmptyStartTag", s, c)
ReadStartTag(s, c)      == Act("StartTag", s, c)
ReadEndTag(s, c)        == Act("EndTag", s, c)
RejectUnclosed(s, c)    == Act("UnclosedInclude", s, c)
RejectNoContent(s, c)   == Act("NoContent", s, c)
Accept(s, c)            == Act("Finish", s, c)

ParserNext(s, c) ==
   \/ SkipComment(s, c)      \/ SkipPrologSpace(s, c)   \/ ReadSection(s, c)
   \/ LeaveInclude(s, c)     \/ ReadInstruction(s, c)   \/ ReadDeclaration(s, c)
   \/ RejectDeclaration(s, c) \/ StartContent(s, c)     \/ ReadText(s, c)
   \/ ReadEmptyStartTag(s, c) \/ ReadStartTag(s, c)     \/ ReadEndTag(s, c)
   \/ RejectUnclosed(s, c)   \/ RejectNoContent(s, c)   \/ Accept(s, c)
=============================================================================
