---------------------------- MODULE MCBitFields ----------------------------
EXTENDS BitFields, Json
CONSTANTS Bits, MaxOps
VARIABLE hist
MCInit == InitWith(Bits) /\ hist = <<>>
New0(k, nm, ix, w, v) == [k |-> k, n |-> nm, ix |-> ix, w |-> w, v |-> v,
                          cmd |-> w = 2, enum |-> IF w = 3 THEN "e.x" ELSE "none",
                          desc |-> IF w = 1 THEN "text" ELSE "none"]
KN(x) == [n |-> x, i |-> 0]
KI(x) == [n |-> "", i |-> x]
On0(how, key, v, neg) == [k |-> "on", how |-> how, key |-> key, v |-> v, neg |-> neg]
Its == { << New0("i", "a", 9999, 2, <<1, 0>>), New0("i", "", 9999, 2, <<0, 1>>),
            New0("i", "B", 9999, 1, <<1>>) >>,
         << New0("i", "a", 6, 1, <<0>>), New0("i", "B", 0, 3, <<1, 1>>) >>,
         << New0("i", "a", 6, 2, <<0>>), New0("i", "B", 9999, 1, <<1, 1>>) >>,
         << New0("i", "a", 2, 2, <<0, 0, 1>>) >> }
Ops ==
    {New0("flag", nm, ix, 1, <<>>) : nm \in {"a", "B", "a b"}, ix \in {9999, 1}}
    \cup {New0("field", nm, ix, w, <<>>) : nm \in {"a", "c"}, ix \in {9999, 0, 6}, w \in {2, 3}}
    \cup {New0("field", "a", 9999, 1, <<>>), New0("field", "big", 9999, 8, <<>>), New0("field", "x!", 9999, 2, <<>>)}
    \cup {New0("pad", "", ix, 2, v) : ix \in {9999, 2}, v \in {<<>>, <<1, 0, 1>>}}
    \cup {[k |-> kk] : kk \in {"finalize", "reload", "copy", "swap"}}
    \cup {On0(how, key, <<>>, 0) : how \in {"get", "invert", "raise", "lower", "flag"},
                            key \in {KN("a"), KI(1)}}
    \cup {On0("set", key, v[1], v[2]) : key \in {KN("a"), KI(2), KN("c")},
                            v \in {<< <<1, 0, 1, 1>>, 0>>, << <<>>, 1>>, << <<0, 1>>, 0>>}}
    \cup {[k |-> "raw", v |-> [i \in 1..Bits |-> i % 2]]}
    \cup {[k |-> "load", items |-> its, fin |-> its[1].ix = 2] : its \in Its}
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCView == <<bvars, Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
=============================================================================
