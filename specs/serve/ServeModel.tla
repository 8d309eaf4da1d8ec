------------------------------ MODULE ServeModel ------------------------------
EXTENDS Serve
Rep(n, s) == [i \in 1..n |-> s]
Few == <<"ok", "empty", "hang">>
Many == Rep(14, "ok") \o <<"big", "big", "bigerr", "both", "fail", "sig", "empty", "space", "garbage", "nonutf8", "nonutf8err", "err", "build", "hang", "hangtree">>
FewKinds == <<"permissions", "badjson">>
AllKinds == Rep(9, "permissions") \o Rep(9, "interpreter") \o <<"badjson", "nofield", "notype", "get", "nowhere", "hi", "badutf8", "text", "array">>
FewOdds == <<"", "bad", "leave">>
AllOdds == Rep(6, "") \o <<"fail", "fail", "bad", "leave">>
=============================================================================
