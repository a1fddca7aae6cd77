-------------------------------- MODULE Tabs --------------------------------
(***************************************************************************)
(* The web interface's tabs (runtimepy.net.server.websocket): clients that *)
(* connect, show and hide tabs, and ask for what's new once per frame.     *)
(* Each tab is a channel environment, whose channels change meanwhile.     *)
(*                                                                         *)
(* A client knows of a channel what it was sent last (its view); each      *)
(* change of a channel while a tab is shown is sent with the next frame.   *)
(* One of the clients, at a time, updates the interface's own state.       *)
(*                                                                         *)
(* Values are text.  A client's tab: [shown, init (logs are wanted), view, *)
(* pts (changes to be sent), logs (to be sent)].                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES x, obs

Tabs == {1, 2}
Clients == {1, 2, 3}
Names == <<"n", "x", "e", "b", "f1", "f2">>
First == <<"0", "0.0", "a", "False", "False", "c">>
Ix == 1..Len(Names)
Index(name) == CHOOSE i \in Ix : Names[i] = name
(* JSON can't express these. *)
Sendable(v) == v \notin {"nan", "inf"}

NoTab == [shown |-> FALSE, init |-> FALSE, view |-> [i \in Ix |-> "?"], pts |-> [i \in Ix |-> <<>>], logs |-> <<>>]
Closed == [open |-> FALSE, tab |-> [t \in Tabs |-> NoTab], time |-> 0, polled |-> -2]
Ui == [time |-> 0, period |-> 0, num |-> 0, who |-> 0, poller |-> 0]

XFresh(cfg) ==
    [val |-> [t \in Tabs |-> First], cl |-> [c \in Clients |-> Closed], ui |-> Ui, has |-> cfg.ui,
     now |-> 0, serial |-> 0, num |-> [c \in Clients |-> 0],
     res |-> [pts |-> <<>>, logs |-> <<>>, view |-> <<>>]]
Open(y) == {c \in Clients : y.cl[c].open}
Nothing == [pts |-> <<>>, logs |-> <<>>, view |-> <<>>]

Connect(y, c) ==
    IF y.cl[c].open THEN y
    ELSE [y EXCEPT !.cl[c] = [Closed EXCEPT !.open = TRUE], !.serial = @ + 1, !.num[c] = y.serial + 1,
                   !.ui.num = IF y.has THEN @ + 1 ELSE @]
Leave(y, c) ==
    IF ~y.cl[c].open THEN y
    ELSE [y EXCEPT !.cl[c] = Closed, !.ui.num = IF y.has THEN @ - 1 ELSE @,
                   !.ui.poller = IF @ = c THEN 0 ELSE @]

(* Everything a client doesn't know yet is sent when a tab is shown. *)
Shown(y, c, t) ==
    IF y.cl[c].tab[t].shown THEN y
    ELSE LET view == [i \in Ix |-> IF Sendable(y.val[t][i]) THEN y.val[t][i] ELSE y.cl[c].tab[t].view[i]] IN
         [y EXCEPT !.cl[c].tab[t].shown = TRUE, !.cl[c].tab[t].view = view, !.res.view = view]
Hidden(y, c, t) == [y EXCEPT !.cl[c].tab[t].shown = FALSE, !.cl[c].tab[t].pts = NoTab.pts]
Event(y, c, t, e) ==
    IF ~y.cl[c].open \/ t \notin Tabs THEN y
    ELSE CASE e = "init" -> [y EXCEPT !.cl[c].tab[t].init = TRUE]
           [] e = "tab.shown" -> Shown(y, c, t)
           [] e = "tab.hidden" -> Hidden(y, c, t)
           [] OTHER -> y

Set(y, t, ch, v) ==
    LET i == Index(ch) IN
    IF y.val[t][i] = v THEN y
    ELSE [y EXCEPT !.val[t][i] = v,
                   !.cl = [c \in Clients |->
                       IF @[c].tab[t].shown /\ Sendable(v)
                       THEN [@[c] EXCEPT !.tab[t].pts[i] = Append(@, <<v, y.now>>)] ELSE @[c]]]
(* Many changes between two frames. *)
Burst(y, t, n) == FoldLeft(LAMBDA z, v : Set(z, t, "n", v), y, [i \in 1..n |-> IF i % 2 = 1 THEN "1" ELSE "0"])
Log(y, t, n) ==
    [y EXCEPT !.cl = [c \in Clients |->
        IF @[c].tab[t].init THEN [@[c] EXCEPT !.tab[t].logs = Append(@, n)] ELSE @[c]]]

(* A frame: the interface's state first, then each tab's news. *)
Polls(y, c) == y.has /\ y.ui.poller \in {0, c} /\ y.now > y.cl[c].polled
Poll(y, c, time) ==
    IF ~Polls(y, c) THEN y
    ELSE [y EXCEPT !.ui = [time |-> time, period |-> time - y.cl[c].time, num |-> @.num,
                           who |-> y.num[c], poller |-> c],
                   !.cl[c].polled = y.now]
Latest(tab, i) == IF tab.pts[i] = <<>> THEN tab.view[i] ELSE tab.pts[i][Len(tab.pts[i])][1]
Frame(y, c, time) ==
    IF ~y.cl[c].open THEN y
    ELSE LET z == Poll(y, c, time)
             tab(t) == z.cl[c].tab[t]
             view == [t \in Tabs |-> [i \in Ix |-> Latest(tab(t), i)]]
         IN [z EXCEPT !.res = [pts |-> <<tab(1).pts, tab(2).pts>>, logs |-> <<tab(1).logs, tab(2).logs>>,
                               view |-> <<IF tab(1).shown THEN view[1] ELSE <<>>,
                                          IF tab(2).shown THEN view[2] ELSE <<>>>>],
                      !.cl[c].time = time,
                      !.cl[c].tab = [t \in Tabs |-> [tab(t) EXCEPT !.pts = NoTab.pts, !.logs = <<>>, !.view = view[t]]]]

Watched(y, t) == \E c \in Clients : y.cl[c].tab[t].shown
See(y) == [pts |-> y.res.pts, logs |-> y.res.logs, view |-> y.res.view,
           ui |-> <<y.ui.time, y.ui.period, y.ui.num, y.ui.who>>,
           open |-> [c \in Clients |-> y.cl[c].open], watched |-> <<Watched(y, 1), Watched(y, 2)>>,
           val |-> <<y.val[1], y.val[2]>>, bad |-> 0]
Step(y, o) ==
    CASE o.k = "conn" -> Connect(y, o.c)
      [] o.k = "leave" -> Leave(y, o.c)
      [] o.k = "ev" -> Event(y, o.c, o.t, o.e)
      [] o.k = "set" -> IF o.c = 0 \/ y.cl[o.c].open THEN Set(y, o.t, o.ch, o.v) ELSE y
      [] o.k = "burst" -> Burst(y, o.t, o.n)
      [] o.k = "log" -> Log(y, o.t, o.n)
      [] o.k = "frame" -> Frame(y, o.c, o.time)
(* Time goes on with everything that's done, but not between quick frames. *)
Tick(y, o) == [y EXCEPT !.now = IF o.k = "frame" /\ o.quick THEN @ ELSE @ + 1, !.res = Nothing]
XDo(o) == /\ x' = Step(Tick(x, o), o)
          /\ obs' = See(x')
XInit(cfg) == x = XFresh(cfg) /\ obs = See(XFresh(cfg))

-----------------------------------------------------------------------------
(* After a frame, a tab that's shown shows what its environment holds (of   *)
(* what can be sent); what's pending leads there.                           *)
Current == \A c \in Open(x) : \A t \in Tabs : x.cl[c].tab[t].shown =>
    \A i \in Ix : Sendable(x.val[t][i]) => Latest(x.cl[c].tab[t], i) = x.val[t][i]
(* Nothing is kept for clients that left or tabs that are hidden. *)
Clean == \A c \in Clients : \A t \in Tabs :
    /\ ~x.cl[c].open => x.cl[c].tab[t] = NoTab
    /\ ~x.cl[c].tab[t].shown => x.cl[c].tab[t].pts = NoTab.pts
Counted == x.has => x.ui.num = Cardinality(Open(x))
PollerOpen == x.ui.poller # 0 => x.cl[x.ui.poller].open
=============================================================================
