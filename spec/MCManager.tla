----------------------------- MODULE MCManager -----------------------------
EXTENDS Manager, Json
CONSTANTS Conns, MaxOps, Steps
VARIABLE hist
MCInit == s = 0 /\ m = MFresh(Conns) /\ obs = MSeen(m) /\ hist = <<>>
I == 1..Len(m.cs)
Ops ==
    [k : {"add"}, i : {i \in I : ~Managed(m, i) /\ ~InQueue(m, i)}]
    \cup (IF m.run /\ m.shut = 0 THEN [k : {"addstop"}, i : {i \in I : ~Managed(m, i) /\ ~InQueue(m, i)}] ELSE {})
    \cup {[k |-> "auto", i |-> i, v |-> ~m.auto[i]] : i \in I}
    \cup [k : {"disable", "eof"}, i : {i \in I : m.cs[i].en}]
    \cup [k : {"break"}, i : {i \in I : ~m.cs[i].badc /\ i = 1}]
    \cup (IF m.stop THEN {} ELSE {[k |-> "stop"]})
    \cup (IF m.run THEN (IF m.shut = 0 /\ m.second = "none" THEN {[k |-> "again"]} ELSE {}) ELSE {[k |-> "manage"]})
    \cup (IF m.polled # (IF m.run /\ m.shut = 0 THEN m.list ELSE <<>>) THEN {[k |-> "poll"]} ELSE {})
    \cup (IF \E i \in I : m.cs[i].phase = "wait" THEN [k : {"adv"}, d : Steps] ELSE {})
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : MDo(o) /\ hist' = Append(hist, o)
CView(c) == [c EXCEPT !.now = 0, !.wake = IF c.phase = "wait" THEN @ - c.now ELSE 0, !.tries = <<>>,
                      !.ra = Min2(@, 2), !.rs = Min2(@, 1), !.closes = Min2(@, 2)]
MCView == <<[m EXCEPT !.now = 0, !.shut = IF @ = 0 THEN 0 ELSE @ - m.now,
                      !.cs = [i \in I |-> CView(m.cs[i])]], Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstA == <<[en |-> TRUE, auto |-> TRUE, plan |-> <<"no", "no", "ok", "raise">>],
            [en |-> TRUE, auto |-> FALSE, plan |-> <<>>]>>
ConstB == <<[en |-> TRUE, auto |-> TRUE, plan |-> <<"ok", "no", "no", "no", "no", "no", "no", "no", "no">>],
            [en |-> FALSE, auto |-> FALSE, plan |-> <<"no", "no", "no", "ok">>],
            [en |-> TRUE, auto |-> TRUE, plan |-> <<"raise">>]>>
=============================================================================
