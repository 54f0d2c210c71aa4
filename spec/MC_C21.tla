------------------------------- MODULE MC_C21 -------------------------------
(***************************************************************************)
(* C21: booleans.  A text is composed and put, under one of a few keys, at *)
(* one of the places a boolean can be in; other attributes and elements    *)
(* stand before or after.                                                  *)
(***************************************************************************)
EXTENDS SgmlDeser, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Tokens == <<S("true"), S("false"), S("1"), S("0"), S("TRUE"), S("False"), S("t"), S("rue"), S("fAL"), S("SE"), S(" "), S("K"), S("k"), S("kEy"), <<"ue9">>, <<"uc9">>, <<"u17f">>, <<"u212a">>, S("yes"), S("01")>>
Keys == <<S("k"), S("Key"), S("true"), S("FALSE"), S("0"), <<"ue9">>, S("s")>>
Bool == <<"bool">>
Sorts == <<Bool, <<"opt", Bool>>, <<"new", Bool>>, <<"opt", <<"new", Bool>>>>>>
NK == Len(Keys)
Struct(n, T) == <<"struct", <<<<S("a"), <<"opt", Bool>>, "req">>, <<n, T, "req">>, <<S("z"), <<"str">>, "def">>>>>>
\* under each key; as the content; as items; in a map
Types == [i \in 1..(NK * 4) |-> Struct(Keys[((i - 1) \div 4) + 1], Sorts[((i - 1) % 4) + 1])] \o
         [i \in 1..4 |-> Struct(S("$value"), Sorts[i])] \o
         [i \in 1..NK |-> Struct(Keys[i], <<"seq", Bool>>)] \o << <<"map", Bool>>, <<"any">> >>
TypeField(k, s) == (k - 1) * 4 + s
TypeContent(s) == NK * 4 + s
TypeItems(k) == NK * 4 + 4 + k
TypeMap == NK * 4 + 4 + NK + 1
E(n, c) == << <<"open", n>>, <<"close">> >> \o c \o << <<"end", n>> >>
T(x) == << <<"text", x>> >>
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Flat(Tail(ps))
Around == {"alone", "before", "after", "both"}
Places == {"attr", "attr0", "elem", "content", "items", "map", "mapelem"}
DocFor(p, key, x, ar) ==
   LET open == << <<"open", S("r")>> >>
       close == << <<"close">> >>
       end == << <<"end", S("r")>> >>
       al == IF ar \in {"before", "both"} THEN << <<"attr0", S("a")>> >> ELSE <<>>
       ar1 == IF ar \in {"after", "both"} THEN << <<"attr", S("z"), key>> >> ELSE <<>>
       el == IF ar \in {"before", "both"} THEN E(S("a"), T(S("TRUE"))) ELSE <<>>
       er == IF ar \in {"after", "both"} THEN E(S("z"), T(key)) ELSE <<>>
   IN CASE p = "attr"    -> open \o al \o << <<"attr", key, x>> >> \o ar1 \o close \o end
        [] p = "attr0"   -> open \o al \o << <<"attr0", key>> >> \o ar1 \o close \o end
        [] p = "elem"    -> open \o close \o el \o E(key, T(x)) \o er \o end
        [] p = "content" -> open \o al \o ar1 \o close \o T(x) \o end
        [] p = "items"   -> open \o close \o el \o E(key, T(x)) \o E(key, T(S("1"))) \o er \o end
        [] p = "map"     -> open \o << <<"attr0", S("a")>>, <<"attr", key, x>> >> \o close \o E(key, T(S("1"))) \o end
        [] p = "mapelem" -> open \o << <<"attr0", S("a")>>, <<"attr", key, S("0")>> >> \o close \o E(key, T(x)) \o end
VARIABLES ps, key, place, around, sort, ty, out
vars == <<ps, key, place, around, sort, ty, out>>
Init == ps = <<>> /\ key = 0 /\ place = "" /\ around = "" /\ sort = 0 /\ ty = 0 /\ out = <<>>
Add(t) == place = "" /\ Len(ps) < Depth /\ ps' = Append(ps, Tokens[t]) /\ UNCHANGED <<key, place, around, sort, ty, out>>
TypeOf(p, k, s) == CASE p = "content" -> TypeContent(s) [] p = "items" -> TypeItems(k) [] p \in {"map", "mapelem"} -> TypeMap [] OTHER -> TypeField(k, s)
Read(p, k, ar, s) ==
   /\ place = ""
   /\ p = "attr0" => ps = <<>>
   /\ p = "content" => k = 1 /\ ar # "both"
   /\ p \in {"map", "mapelem", "items"} => s = 1
   /\ p \in {"map", "mapelem"} => ar = "alone"
   /\ s \in {2, 3} => ar = "alone"
   /\ place' = p /\ key' = k /\ around' = ar /\ sort' = s /\ ty' = TypeOf(p, k, s)
   /\ out' = Outcome(DocFor(p, Keys[k], Flat(ps), ar), Types[TypeOf(p, k, s)])
   /\ UNCHANGED ps
Next == (\E t \in 1..Len(Tokens) : Add(t)) \/ (\E p \in Places, k \in 1..NK, ar \in Around, s \in 1..4 : Read(p, k, ar, s))
Spec == Init /\ [][Next]_vars
Done == place # ""
Report == Done => PrintT(ToJson(<<DocFor(place, Keys[key], Flat(ps), around), ty, out>>))
ASSUME PrintT(ToJson([types |-> Types]))

Text == Flat(ps)
\* the documented forms
Ascii(c) == AsciiLower(<<c>>)[1]
Folded == [i \in 1..Len(Text) |-> Ascii(Text[i])]
KeyFolded == [i \in 1..Len(Keys[key]) |-> Ascii(Keys[key][i])]
True == Folded \in {S("1"), S("true")} \/ (place \in {"attr", "attr0", "map"} /\ (Text = <<>> \/ Folded = KeyFolded))
False == ~True /\ Folded \in {S("0"), S("false")}
RECURSIVE Bare(_)
Bare(v) == IF v[1] \in {"some", "new"} THEN Bare(v[2]) ELSE v
The == CASE place = "items" -> out[2][2][2][2][1]
         [] place = "map" -> out[2][2][2][2]
         [] place = "mapelem" -> out[2][2][3][2]
         [] OTHER -> Bare(out[2][2][2])
Forms == Done => /\ (out[1] = "ok") = (True \/ False)
                 /\ (out[1] = "ok" => The = <<"bool", True>>)
Neighbours == Done /\ out[1] = "ok" /\ place \notin {"map", "mapelem"} =>
   /\ out[2][2][1] = (IF around \in {"before", "both"} THEN <<"some", <<"bool", TRUE>>>> ELSE <<"none">>)
   /\ out[2][2][3] = (IF around \in {"after", "both"} THEN <<"str", Keys[key]>> ELSE <<"default">>)
=============================================================================
