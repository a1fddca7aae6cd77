------------------------------- MODULE MCPeer -------------------------------
EXTENDS Peer, Json, TLC
CONSTANTS Cfgs, MaxOps
VARIABLE hist
Prefix(i) == LET y == After(Fresh([early |-> i = 2]), [k |-> "start"]) IN y
MCInit == \E i \in Cfgs :
    LET y == IF i <= 2 THEN Prefix(i) ELSE Fresh([early |-> i = 4])
    IN x = Quiet(y) /\ obs = See(Quiet(y)) /\ hist = <<[k |-> "cfg", i |-> i]>>
Late2 == hist[1].i > 2
Ops ==
    {[k |-> "hold", p |-> p] : p \in {"in", "out", "err"}}
    \cup {[k |-> "free", p |-> p] : p \in {"in", "out", "err"}}
    \cup {[k |-> "pset", c |-> "n", v |-> v] : v \in {1, 2} \ {IF x.ps = "none" THEN 0 ELSE x.val[1]}}
    \cup {[k |-> "log", t |-> Len(hist)]}
    \cup (IF Late2 THEN {[k |-> "start"], [k |-> "hset", c |-> "n", v |-> Len(hist)]}
          ELSE {[k |-> "hlog", t |-> Len(hist)],
                [k |-> "cmd", o |-> "toggle", c |-> "f", v |-> 0, f |-> FALSE],
                [k |-> "cmd", o |-> "set", c |-> "x", v |-> Len(hist), f |-> TRUE],
                [k |-> "cmd", o |-> "set", c |-> "n", v |-> 500, f |-> FALSE],
                [k |-> "pcmd", o |-> "set", c |-> "n", v |-> Len(hist), f |-> FALSE],
                [k |-> "share", v |-> Len(hist)],
                [k |-> "poll", s |-> "p", v |-> 1], [k |-> "poll", s |-> "h", v |-> 2],
                [k |-> "die"], [k |-> "fail"]})
    \cup {[k |-> "close"]}
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, hist[1], Len(hist)>>
Report2 == (Len(hist') = MaxOps + 1 \/ x'.gone) => PrintT("SCN " \o ToJson(hist'))
ConstCfgs == {1, 2, 3, 4}
=============================================================================
