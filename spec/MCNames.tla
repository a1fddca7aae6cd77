------------------------------- MODULE MCNames -------------------------------
EXTENDS Names, Json
CONSTANTS Mode, MaxOps
VARIABLE hist
MCInit == InitWith(Mode) /\ hist = <<>>
V(t, v) == [t |-> t, v |-> v]
N3 == {"a", "b", "a b"}
Lists == { << <<"a", 1>> >>, << <<"b", 1>> >>, << <<"a", 2>>, <<"b", 1>> >>,
           << <<"b", 3>>, <<"a b", 2>>, <<"C", 5>> >>,
           << <<"C", 5>>, <<"C", 5>>, <<"a", 5>> >>, << <<"x.y", -1>>, <<"C", 0>> >> }
BLists == { << <<"a", 1>> >>, << <<"b", 1>> >>, << <<"a", 0>>, <<"b", 1>> >>,
            << <<"C", 0>>, <<"C", 1>> >> }
Ops ==
    (IF Mode \in {"names", "ints"}
     THEN [k : {"register"}, n : N3, id : IF Mode = "ints" THEN {9999} ELSE {9999, 1, 2, 5}]
          \cup [k : {"load", "fresh"}, pairs : Lists] \cup [k : {"reload"}]
     ELSE {})
    \cup (IF Mode \in {"bools", "flags"}
          THEN [k : {"register_bool"}, n : N3 \cup {"on"}, v : {0, 1}]
               \cup [k : {"load", "fresh"}, pairs : BLists] \cup [k : {"reload"}]
          ELSE {})
    \cup (IF Mode = "items"
          THEN [k : {"enum"}, n : N3 \cup {"C"}, id : {9999, 1, 3}, bad : {TRUE, FALSE}]
               \cup [k : {"get"}, v : {V("s", "a"), V("i", 1), V("i", 2), V("s", "zz")}]
               \cup [k : {"reload_items"}]
          ELSE {})
    \cup (IF Mode = "ints"
          THEN [k : {"ask"}, how : {"as_str", "get_str", "as_int", "get_int"},
                v : {V("s", "a"), V("s", "5"), V("i", 1), V("i", 5)}]
          ELSE {})
    \cup (IF Mode = "flags"
          THEN [k : {"ask"}, how : {"as_str", "get_str", "as_bool", "get_bool", "get_int"},
                v : {V("s", "a"), V("s", "TRUE"), V("b", 1), V("b", 0)}]
          ELSE {})
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCView == <<nvars, Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
=============================================================================
