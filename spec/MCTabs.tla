------------------------------- MODULE MCTabs -------------------------------
EXTENDS Tabs, Json, TLC
CONSTANTS Cfgs, MaxOps
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) :
    LET y == XFresh([ui |-> TRUE])
        z == IF Cfgs[i] = "two" THEN Connect(Connect(y, 1), 2) ELSE Event(Connect(y, 1), 1, 1, "tab.shown")
    IN x = [z EXCEPT !.res = Nothing] /\ obs = See(z) /\ hist = <<[k |-> "cfg", i |-> i]>>
Big == Cfgs[hist[1].i] = "two"
Used == IF Big THEN {1, 2, 3} ELSE {1}
Vals(ch) == CASE ch = "n" -> {"0", "1"} [] ch = "x" -> {"0.0", "1.5", "nan"} [] ch = "f1" -> {"False", "True"} [] OTHER -> {}
Ops ==
    {[k |-> "conn", c |-> c] : c \in {d \in Used : ~x.cl[d].open}}
    \cup {[k |-> "leave", c |-> c] : c \in {d \in Used : x.cl[d].open}}
    \cup {[k |-> "frame", c |-> c, time |-> Len(hist) * 10, quick |-> q] :
              c \in {d \in Used : x.cl[d].open}, q \in IF Big THEN {FALSE} ELSE BOOLEAN}
    \cup {[k |-> "ev", c |-> c, t |-> 1, e |-> e] : c \in {d \in Used : x.cl[d].open}, e \in {"tab.shown", "tab.hidden"}}
    \cup {[k |-> "ev", c |-> c, t |-> 1, e |-> "init"] : c \in {d \in Used : x.cl[d].open /\ ~x.cl[d].tab[1].init}}
    \cup UNION {{[k |-> "set", c |-> 0, t |-> 1, ch |-> ch, v |-> v] : v \in Vals(ch) \ {x.val[1][Index(ch)]}} :
                    ch \in IF Big THEN {"n"} ELSE {"x", "f1"}}
    \cup {[k |-> "log", t |-> 1, n |-> Len(hist)]}
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, hist[1], Len(hist)>>
Emit == Len(hist') = MaxOps + 1 => PrintT("SCN " \o ToJson(hist'))
ConstCfgs == <<"two", "one">>
=============================================================================
