------------------------------- MODULE MCTftp -------------------------------
EXTENDS Tftp, Json, TLC
CONSTANTS Cfgs, MaxOps, Net
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) : XInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
Names == 1..Len(x.cfg.fs)
Ask(k, n, f, d, ver) == [k |-> k, n |-> n, f |-> f, d |-> d, ver |-> ver]
Ops ==
    (IF Len(x.c.q) >= 2 \/ x.ids >= 2 THEN {}
     ELSE {Ask("read", n, 0, x.ids + 1, FALSE) : n \in Names}
          \cup {Ask("write", n, f, 0, v) : n \in Names, f \in 1..Len(x.cfg.src), v \in BOOLEAN})
    \cup [k : {"dlv"}, dir : {"c2s"}, i : 1..Len(x.c2s), dup : BOOLEAN]
    \cup [k : {"dlv"}, dir : {"s2c"}, i : 1..Len(x.s2c), dup : BOOLEAN]
    \cup [k : {"drop"}, dir : {"c2s"}, i : 1..Len(x.c2s)]
    \cup [k : {"drop"}, dir : {"s2c"}, i : 1..Len(x.s2c)]
    \cup (IF Timers(x) = {} THEN {} ELSE {[k |-> "wait", d |-> MinOf(Timers(x)) - x.now]})
    \cup (IF Len(hist) % 4 # 2 THEN {}
          ELSE [k : {"alien"}, dir : {"s2c"}, m : {3, 4}, b : {0, 1}, p : {2, 3}]
               \cup [k : {"alien"}, dir : {"c2s"}, m : {0, 3, 4, 9}, b : {1}, p : {2}])
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : XDo(o) /\ hist' = Append(hist, o)
          /\ Len(x'.c2s) <= Net /\ Len(x'.s2c) <= Net
Rel(y, v) == v - y.now
MCView == <<[x EXCEPT !.now = 0, !.c.nxt = IF x.c.ph = "idle" THEN 0 ELSE Rel(x, @),
                      !.c.dl = IF x.c.ph = "idle" THEN 0 ELSE Rel(x, @),
                      !.s.nxt = IF x.s.ph = "idle" THEN 0 ELSE Rel(x, @),
                      !.s.dl = IF x.s.ph = "idle" THEN 0 ELSE Rel(x, @),
                      !.c.bg = [i \in 1..Len(@) |-> [b |-> @[i].b, nxt |-> Rel(x, @[i].nxt), dl |-> Rel(x, @[i].dl)]],
                      !.outc = <<>>, !.outs = <<>>, !.errs = <<>>, !.res = <<>>, !.wrong = FALSE, !.lost = FALSE],
            Len(hist)>>
Safe == [][Right]_<<x, hist>>
Emit == PrintT("SCN " \o ToJson(hist'))
K(t, tid, src, fs) == [p |-> 20, t |-> t, tid |-> tid, src |-> src, fs |-> fs]
ConstCfgs == <<
    K(50, 0, <<>>, <<<<112, 121>>, <<211>>>>),
    K(30, 1, <<<<311>>>>, <<<<>>, Dir>>),
    K(30, 0, <<<<312>>, <<>>>>, <<None>>)>>
=============================================================================
