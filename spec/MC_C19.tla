------------------------------- MODULE MC_C19 -------------------------------
(* C19: transforms apply all recorded edits at their original positions. *)
EXTENDS TransformSession
=============================================================================
