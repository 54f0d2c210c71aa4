----------------------------- MODULE MC_Expand -----------------------------
EXTENDS ExpandSession
T == << S("&"), S("%"), S("#"), S("x"), S("65"), S(";"), S("lt"), S(" "), S("6b"), S("rec"), S("#1114112"), S("0"), <<"ue9">>, S("-"),
        S("1114111"), S("D800"), S("X"), S(".a"), S("&#xDfFf;"), S("&#55296"), S("&#x") >>
Full == << <<S("lt"), S("<")>>, <<S("rec"), S("&lt;%rec;&#65;")>>, <<S("#1114112"), S("[n]")>>, <<S("#lt"), S("[f]")>>, <<S("x"), <<>>>>,
           <<S("#x"), S("[x]")>>, <<S("#xlt"), S("[xlt]")>>, <<<<"ue9">>, S("e")>>, <<S("#rec"), S("&")>>, <<S("lt.a"), S("[dot]")>>,
           <<S("#X65"), S("[X]")>>, <<S("lt65"), S("[l]")>>, <<S("rec-"), S(";")>>, <<S("xx"), S("[xx]")>>, <<S("#xD800"), S("[sur]")>> >>
Tb == << <<>>, Full >>
=============================================================================
