------------------------------- MODULE MCTask -------------------------------
EXTENDS Task, Json
CONSTANTS Tasks, MaxOps, Mode
VARIABLE hist
MCInit == w = WFresh(Tasks) /\ obs = WSeen(w) /\ hist = <<>>
I == 1..Len(w.ts)
Busy(i) == w.ts[i].phase \in {"disp", "init"} \/ w.ts[i].orph > 0
P(i) == Per(w.ts[i])
Ops ==
    [k : {"start"}, i : {i \in I : P(i) \/ w.ts[i].phase = "idle"}, sig : BOOLEAN, p : {0}]
    \cup [k : {"stop"}, i : {i \in I : P(i) /\ w.ts[i].has}]
    \cup (IF Len(w.ts) > 1 THEN {[k |-> "startall"], [k |-> "stopall"]} ELSE {})
    \cup [k : {"cancel", "disable"}, i : {i \in I : w.ts[i].phase # "idle"}]
    \cup [k : {"pause"}, i : {i \in I : P(i) /\ ~w.ts[i].paused}, v : {TRUE}]
    \cup [k : {"pause"}, i : {i \in I : P(i) /\ w.ts[i].paused}, v : {FALSE}]
    \cup {[k |-> "period", i |-> i, p |-> IF w.ts[i].period = 2 THEN 5 ELSE 2] : i \in I}
    \cup {[k |-> "sig", v |-> ~w.sig]}
    \cup [k : {"finish"}, i : {i \in I : Busy(i)}, r : {"ok", "no", "raise"}]
    \cup (IF \E i \in I : w.ts[i].phase # "idle" THEN [k : {"adv"}, d : {1, 4}] ELSE {})
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : WDo(o) /\ hist' = Append(hist, o)
MCView == <<[i \in I |-> [w.ts[i] EXCEPT !.t0 = IF w.ts[i].phase = "disp" THEN w.now - @ ELSE 0,
                            !.wake = IF w.ts[i].phase = "sleep" THEN @ - w.now ELSE 0,
                            !.win = <<>>, !.mx = 0, !.mn = 0, !.n = Min2(@, 1), !.dn = IF P(i) THEN 0 ELSE @, !.over = 0, !.extras = 0]],
            w.sig, Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstOne == <<[fl |-> "periodic", period |-> 2, maxit |-> 0, gate |-> FALSE]>>
ConstTwo == <<[fl |-> "periodic", period |-> 2, maxit |-> 0, gate |-> FALSE],
              [fl |-> "periodic", period |-> 5, maxit |-> 0, gate |-> FALSE]>>
ConstAsync == <<[fl |-> "async", period |-> 2, maxit |-> 2, gate |-> TRUE]>>
=============================================================================
