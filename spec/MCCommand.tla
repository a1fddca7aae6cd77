----------------------------- MODULE MCCommand -----------------------------
EXTENDS Command, Json, TLC
CONSTANTS Cfgs, MaxOps
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) : CInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
N(t, n) == [t |-> t, n |-> n, s |-> ""]
W(t) == [t |-> "word", n |-> 0, s |-> t]
Values(k) ==
    CASE k \in {"bool", "benum"} -> {W("true"), W("off"), W("junk"), N("int", 2)}
      [] k \in {"int", "field", "flag"} -> {N("int", 2), N("int", 6), N("half", 3), W("false"), W("inf")}
      [] k \in {"float", "scaled"} -> {N("int", -4), N("half", 3), W("true")}
      [] k \in {"enum", "fenum"} -> {W("x"), W("y"), W("junk"), N("int", 4), N("int", 14)}
Chans == 1..Len(c.cfg.chans)
Line(w, fl, i, xs) == [k |-> "cmd", w |-> w, fl |-> fl, c |-> i, xs |-> xs]
Ops ==
    {Line("set", fl, i, <<v>>) : fl \in {<<>>, <<"force">>}, i \in Chans, v \in UNION {Values(Chan(c, j).kind) : j \in Chans}}
    \cup {Line("set", fl, i, <<>>) : fl \in {<<>>, <<"remote">>}, i \in Chans \cup {0}}
    \cup {Line(w, fl, i, <<>>) : w \in {"toggle", "get"}, fl \in {<<>>, <<"force">>, <<"env", "remote">>}, i \in Chans \cup {-1, 0}}
    \cup {Line(w, <<>>, i, <<>>) : w \in {"custom"}, i \in {-1, 0, 1, 2, 3} \cap (-1..Len(c.cfg.chans))}
    \cup {Line("junk", <<>>, 1, <<>>), Line("set", <<"junk">>, 1, <<N("int", 2)>>), Line("toggle", <<"junk">>, 1, <<>>)}
    \cup (IF c.hooks < 2 THEN {[k |-> "hook"]} ELSE {})
    \cup (IF c.q # <<>> THEN {[k |-> "drain"]} ELSE {})
    \cup [k : {"sugg"}, p : {<<>>, <<1>>, <<1, 2>>, <<2>>, <<1, 2, 1>>}]
    \cup (IF Len(hist) < 4 THEN [k : {"reg"}, n : {1, 2}, e : {1, 2}] \cup {[k |-> "clear"]} ELSE {})
MCNext == Len(hist) <= MaxOps /\ \E o \in Ops : CDo(o) /\ hist' = Append(hist, o)
MCView == <<[c EXCEPT !.calls = <<>>, !.done = <<>>, !.res = <<>>, !.sugg = <<>>], Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
Safe == [][Only(hist'[Len(hist')])]_<<c, hist>>
K(kind, cmd, name) == [kind |-> kind, cmd |-> cmd, name |-> name]
ConstCfgs == <<
    [chans |-> <<K("bool", TRUE, <<1, 2>>), K("int", FALSE, <<1>>), K("enum", TRUE, <<1, 2, 1>>)>>,
     remote |-> FALSE, custom |-> 3],
    [chans |-> <<K("flag", FALSE, <<1, 2, 2>>), K("field", TRUE, <<1, 2>>), K("fenum", TRUE, <<2, 1, 1, 1>>)>>,
     remote |-> FALSE, custom |-> 2],
    [chans |-> <<K("scaled", TRUE, <<2>>), K("float", FALSE, <<1, 2>>), K("benum", TRUE, <<1, 2, 1>>)>>,
     remote |-> FALSE, custom |-> 0],
    [chans |-> <<K("bool", TRUE, <<2, 2>>)>>, remote |-> TRUE, custom |-> 1]>>
=============================================================================
