------------------------------- MODULE MCEnv -------------------------------
EXTENDS Env, Json
CONSTANTS Mode, MaxOps
VARIABLE hist
None == [t |-> "none", q |-> 0]
V(t, q, s) == [t |-> t, q |-> q, s |-> s]
KN(x) == [n |-> x, i |-> 0]
KI(x) == [n |-> "", i |-> x]
EI == [k |-> "enum", n |-> "E", kind |-> "int", ps |-> << <<"zero", 0>>, <<"one", 1>>, <<"five", 5>> >>]
EB == [k |-> "enum", n |-> "B", kind |-> "bool", ps |-> << <<"off", 0>>, <<"on", 1>> >>]
Chan(n, how, kind, e, sc, def, prim) ==
    [k |-> "chan", n |-> n, how |-> how, kind |-> kind, prim |-> prim, e |-> e,
     cmd |-> e # "none", desc |-> IF sc # <<>> THEN "text" ELSE "none", def |-> def,
     sc |-> sc, ui |-> IF def.t = "i" THEN "slider" ELSE "none"]
Field(n, prim, ix, w, e) == [k |-> "field", n |-> n, prim |-> prim, ix |-> ix, w |-> w, e |-> e,
                             cmd |-> w = 1, desc |-> IF w = 3 THEN "text" ELSE "none"]
Fin(s) == [k |-> "finalize", strict |-> s]
Reloads == [k : {"reload"}, fin : BOOLEAN]
Sets(keys, vals, sc) == {[k |-> "set", key |-> kk, v |-> v, scaled |-> s] : kk \in keys, v \in vals, s \in sc}

Base(sc) ==
    << EI, EB, Chan("a", "int", "uint8", "none", <<>>, None, 0),
       Chan("s", "int", "int8", "none", IF sc THEN <<1, -2>> ELSE <<>>, [t |-> "i", q |-> 24], 0),
       Chan("b", "bool", "bool", "B", <<>>, None, 0),
       Chan("d", "float", "double", "none", <<>>, [t |-> "f", q |-> 20], 0),
       Chan("e", "any", "uint16", "E", <<>>, None, 0),
       Chan("g", "any", "float", "none", IF sc THEN <<1, 2>> ELSE <<>>, None, 0),
       Chan("p", "bool", "bool", "none", <<>>, None, 0),
       [k |-> "cell", kind |-> "uint8", v |-> 8 * 37],
       Field("f1", 8, 1, 1, "none"), Field("F2", 8, 2, 3, "E"), Field("f3", 8, 6, 1, "B"),
       Chan("raw", "int", "uint8", "none", <<>>, None, 8) >>
Prefix == CASE Mode = "make" -> <<EI>>
            [] Mode = "access" -> Base(TRUE) \o <<Fin(TRUE)>>
            [] Mode = "save" -> Base(FALSE)
Free ==
    CASE Mode = "make" ->
           {EI, EB, Fin(TRUE), Fin(FALSE), [k |-> "cell", kind |-> "uint8", v |-> 40]}
           \cup {Chan(n, "any", "uint8", "none", <<>>, None, 0) : n \in {"a", "B.c", "a b"}}
           \cup {Chan("a", how, kind, "none", <<>>, None, 0) :
                    how \in {"int", "bool", "float"}, kind \in {"uint8", "bool", "float"}}
           \cup {Chan("e", "any", "uint8", e, <<>>, d, 0) :
                    e \in {"E", "nope"}, d \in {None, [t |-> "f", q |-> 8], [t |-> "i", q |-> 40]}}
           \cup (IF Len(cells) = 0 THEN {} ELSE
                  {Chan("c", how, "uint8", "none", <<>>, d, 1) : how \in {"int", "bool"}, d \in {None, [t |-> "i", q |-> 8]}})
           \cup (IF Len(cells) > 0 /\ cells[1].kind = "uint8" /\ ~fin /\ groups = <<>> /\ Len(names) < 2
                 THEN {Field("f", 1, 0, 2, "E")} ELSE {})
           \cup Reloads
           \cup Sets({KN("a"), KN("f"), KI(1), KI(2)}, {V("i", 24, "")}, {TRUE})
           \cup {[k |-> "ask", how |-> h, key |-> KI(1)] : h \in {"exists", "what", "get_int", "get_bool", "get_float"}}
      [] Mode = "access" ->
           Sets({KN("a"), KI(2), KN("b"), KN("e"), KN("g"), KN("F2"), KI(10), KN("zz"), KI(77), KN("p"), KN("raw")},
                {V("i", 40, ""), V("i", -8, ""), V("f", 20, ""), V("b", 8, ""), V("x", 0, "huge"), V("x", 0, "-huge"),
                 V("s", 0, "5"), V("s", 0, "one"), V("s", 0, "true"), V("s", 0, "2.5"), V("s", 0, "x")}, {TRUE})
           \cup Sets({KN("a"), KN("s"), KN("b"), KN("e"), KN("f1")},
                     {V("i", 8 * 300, ""), V("b", 0, ""), V("s", 0, "1"), V("s", 0, "2.5")}, {FALSE})
           \cup {[k |-> "apply", vs |-> <<[key |-> KN("a"), v |-> V("i", 16, "")],
                                          [key |-> kk, v |-> V("i", 8, "")],
                                          [key |-> KN("f3"), v |-> V("s", 0, "on")]>>] :
                    kk \in {KN("F2"), KN("zz")}}
           \cup [k : {"add"}, key : {KN("a"), KN("s"), KN("b"), KI(8), KI(77)}, v : {1, -3, 250}]
           \cup [k : {"ask"}, how : {"exists", "what", "get_int", "get_bool", "get_float", "unscaled", "scaled"},
                 key : {KN("s"), KI(3), KN("F2"), KI(8), KN("zz"), KN("g")}]
      [] Mode = "save" ->
           Sets({KN("a"), KN("d"), KN("F2"), KN("b")}, {V("i", 40, ""), V("i", 0, "")}, {TRUE})
           \cup Sets({KN("d")}, {V("s", 0, "nan"), V("x", 0, "huge")}, {TRUE})
           \cup Sets({KN("e")}, {V("i", 8, ""), V("i", 16, "")}, {TRUE})
           \cup {Fin(FALSE), Chan("n1", "any", "int8", "E", <<>>, None, 0), Field("f4", 8, 7, 1, "none"),
                 [k |-> "default", n |-> "d", def |-> [t |-> "f", q |-> 4]],
                 [k |-> "default", n |-> "a", def |-> None]}
           \cup Reloads
Allowed(o) == o.k = "field" => ~fin /\ FieldAt(groups, o.n)[1] = 0
                /\ \A g \in 1..Len(groups) : \A i \in 1..Len(groups[g].fs) : groups[g].fs[i].n # o.n
MCInit == Init0 /\ hist = <<>>
MCNext ==
    IF Len(hist) < Len(Prefix)
    THEN LET o == Prefix[Len(hist) + 1] IN Do(o) /\ hist' = Append(hist, o)
    ELSE /\ Len(hist) < Len(Prefix) + MaxOps
         /\ \E o \in Free : Allowed(o) /\ Do(o) /\ hist' = Append(hist, o)
MCView == <<evars, Len(hist)>>
Emit == Len(hist') <= Len(Prefix) \/ PrintT("SCN " \o ToJson(hist'))
=============================================================================
