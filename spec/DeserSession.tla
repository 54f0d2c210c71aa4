---------------------------- MODULE DeserSession ----------------------------
(***************************************************************************)
(* A document is composed from groups of attributes and contents of its    *)
(* root element, and then read as one of several types.                    *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils
CONSTANTS AttrGroups,     \* sequences of attribute events
          KidGroups,      \* sequences of content events
          Types0        \* the types to read
Depth == atoi(IOEnv.DEPTH)
Root == S("r")
VARIABLES at, kids, ty, phase, out
vars == <<at, kids, ty, phase, out>>
RECURSIVE Cat(_, _, _)
Cat(groups, ts, i) == IF i > Len(ts) THEN <<>> ELSE groups[ts[i]] \o Cat(groups, ts, i + 1)
DocOf(as, ks) == << <<"open", Root>> >> \o Cat(AttrGroups, as, 1) \o << <<"close">> >> \o Cat(KidGroups, ks, 1) \o << <<"end", Root>> >>
\* Each type is read from the document itself, and from the document as a child between others
K(n, c) == << <<"open", S(n)>>, <<"close">>, <<"text", c>>, <<"end", S(n)>> >>
Framed(d) == << <<"open", S("o")>>, <<"close">> >> \o K("b", S("1")) \o d \o K("k", S(" t")) \o << <<"end", S("o")>> >>
FramedType(T) == <<"struct", << <<S("b"), <<"int", "i8">>, "def">>, <<Root, T, "req">>, <<S("k"), <<"str">>, "req">> >> >>
NT == Len(Types0)
Types == Types0 \o [i \in 1..NT |-> FramedType(Types0[i])]
DocFor(as, ks, t) == IF t <= NT THEN DocOf(as, ks) ELSE Framed(DocOf(as, ks))
Doc == DocFor(at, kids, ty)
Init == at = <<>> /\ kids = <<>> /\ ty = 0 /\ phase = "compose" /\ out = <<>>
Room == phase = "compose" /\ Len(at) + Len(kids) < Depth
AddAttr(t) == Room /\ kids = <<>> /\ at' = Append(at, t) /\ UNCHANGED <<kids, ty, phase, out>>
AddKid(t) == Room /\ kids' = Append(kids, t) /\ UNCHANGED <<at, ty, phase, out>>
Read(t) == phase = "compose" /\ phase' = "read" /\ ty' = t /\ out' = Outcome(DocFor(at, kids, t), Types[t]) /\ UNCHANGED <<at, kids>>
Next == (\E t \in 1..Len(AttrGroups) : AddAttr(t)) \/ (\E t \in 1..Len(KidGroups) : AddKid(t)) \/ (\E t \in 1..Len(Types) : Read(t))
Spec == Init /\ [][Next]_vars
Finished == phase = "read"
Done == Finished /\ ty <= NT
\* a value is the same there, and its neighbours are not disturbed
FramedSame == Finished /\ ty > NT /\ Types0[ty - NT][1] \in {"struct", "map", "any"} =>
   LET o == Outcome(DocOf(at, kids), Types0[ty - NT]) IN
   out = IF o[1] = "ok" THEN <<"ok", <<"struct", << <<"int", <<"1">>>>, o[2], <<"str", S(" t")>> >>>>>> ELSE o
Report == Finished => PrintT(ToJson(<<Doc, ty, out>>))
ASSUME PrintT(ToJson([types |-> Types]))

\* abbreviations
F(n, T) == <<S(n), T, "req">>
D(n, T) == <<S(n), T, "def">>
Struct(fs) == <<"struct", fs>>
Opt(T) == <<"opt", T>>
Seq1(T) == <<"seq", T>>
I8 == <<"int", "i8">>
I32 == <<"int", "i32">>
Str == <<"str">>
E(n, c) == << <<"open", S(n)>>, <<"close">> >> \o c \o << <<"end", S(n)>> >>
EA(n, a, c) == << <<"open", S(n)>> >> \o a \o << <<"close">> >> \o c \o << <<"end", S(n)>> >>
T(s) == << <<"text", S(s)>> >>
A(k, v) == << <<"attr", S(k), S(v)>> >>
A0(k) == << <<"attr0", S(k)>> >>
=============================================================================
