------------------------------ MODULE Manager ------------------------------
(***************************************************************************)
(* The connection manager (runtimepy.net.manager.ConnectionManager): every *)
(* connection given to it is processed by exactly one task at a time until *)
(* it ends, restarted if it should be, and everything is shut down when    *)
(* the stop signal is set.  Connections are those of module Conn; the stop *)
(* signal is set at odd times, when nothing else is due, and every other   *)
(* time is even.                                                           *)
(***************************************************************************)
EXTENDS Conn
CONSTANT Grace      (* How long shutting down may take. *)
VARIABLE m
mvars == <<s, m>>

MFresh(cs) ==
    [cs |-> [i \in 1..Len(cs) |->
               [Fresh("queue", "ok", cs[i].plan) EXCEPT !.en = cs[i].en, !.open = cs[i].en]],
     auto |-> [i \in 1..Len(cs) |-> cs[i].auto],
     list |-> <<>>, queue |-> <<>>, run |-> FALSE, stop |-> FALSE, shut |-> 0,
     done |-> "none", second |-> "none", now |-> 0, polled |-> <<>>]

Managed(x, i) == \E k \in 1..Len(x.list) : x.list[k] = i
InQueue(x, i) == \E k \in 1..Len(x.queue) : x.queue[k] = i
SM == [k |-> "start", stop |-> TRUE, dt |-> 0]

(* A managed connection that ended is processed again if it should be.     *)
(* <<connection, still managed>> once time t is reached.                   *)
RECURSIVE Keep(_, _, _)
Keep(c, auto, t) ==
    IF c.phase = "idle"
    THEN IF auto /\ c.done = "ok" THEN Keep(Start(c, SM), auto, t) ELSE <<[c EXCEPT !.now = t], FALSE>>
    ELSE IF c.phase = "wait" /\ c.wake <= t THEN Keep(Attempt([c EXCEPT !.now = c.wake]), auto, t)
    ELSE <<[c EXCEPT !.now = t], TRUE>>
(* Bring everything up to time t. *)
KeepAll(x, t) ==
    LET r == [i \in 1..Len(x.cs) |-> IF Managed(x, i) THEN Keep(x.cs[i], x.auto[i], t)
                                     ELSE <<[x.cs[i] EXCEPT !.now = t], FALSE>>]
    IN [x EXCEPT !.cs = [i \in 1..Len(x.cs) |-> r[i][1]], !.now = t,
                 !.list = SelectSeq(@, LAMBDA i : r[i][2])]
(* While shutting down, nothing is processed again. *)
Down(x, t) ==
    LET u == Min2(t, x.shut)
        cs1 == [i \in 1..Len(x.cs) |-> IF Managed(x, i) THEN Due(x.cs[i], u) ELSE [x.cs[i] EXCEPT !.now = u]]
        busy == {i \in 1..Len(x.cs) : Managed(x, i) /\ cs1[i].phase # "idle"}
        out == busy = {} \/ u = x.shut
    IN IF out
       THEN [x EXCEPT !.cs = [i \in 1..Len(x.cs) |->
                                IF i \in busy THEN [cs1[i] EXCEPT !.phase = "idle", !.done = "cancelled", !.now = t]
                                ELSE [cs1[i] EXCEPT !.now = t]],
                      !.run = FALSE, !.done = "ok", !.second = IF @ = "waiting" THEN "ok" ELSE @, !.shut = 0, !.list = <<>>, !.now = t]
       ELSE [x EXCEPT !.cs = cs1, !.now = t]
Pass(x, t) == IF ~x.run THEN [x EXCEPT !.now = t, !.cs = [i \in 1..Len(x.cs) |-> [x.cs[i] EXCEPT !.now = t]]]
              ELSE IF x.shut # 0 THEN Down(x, t) ELSE KeepAll(x, t)

(* Take what is queued. *)
RECURSIVE Take(_)
Take(x) ==
    IF ~x.run \/ x.shut # 0 \/ x.queue = <<>> THEN x
    ELSE LET i == Head(x.queue) IN
         Take([x EXCEPT !.queue = Tail(@), !.list = Append(@, i), !.cs[i] = Start(@, SM)])
Stop(x) ==
    IF x.stop THEN x
    ELSE LET y == [x EXCEPT !.stop = TRUE,
                   !.cs = [i \in 1..Len(x.cs) |->
                             LET c == [x.cs[i] EXCEPT !.stop = TRUE]
                             IN IF c.phase = "run" THEN Disable(c) ELSE c]]
         IN IF y.run /\ y.shut = 0 THEN Down([y EXCEPT !.shut = y.now + Grace], y.now) ELSE y
Manage(x) ==
    IF x.run THEN x
    ELSE LET y == [x EXCEPT !.stop = FALSE, !.cs = [i \in 1..Len(x.cs) |-> [x.cs[i] EXCEPT !.stop = FALSE]],
                            !.run = TRUE, !.done = "none", !.second = "none", !.list = <<>>]
         IN Take(y)
Add(x, i) == IF x.cs[i].phase # "idle" \/ InQueue(x, i) THEN x ELSE Take([x EXCEPT !.queue = Append(@, i)])

MStep(x, o) ==
    CASE o.k = "add" -> Pass(Add(x, o.i), x.now)
      (* Queued in the same instant as the stop signal is set. *)
      [] o.k = "addstop" -> IF x.stop THEN Add(x, o.i)
           ELSE LET y == Pass(x, x.now + 1) IN Stop(Add([y EXCEPT !.cs[o.i].stop = TRUE], o.i))
      [] o.k = "auto" -> [x EXCEPT !.auto[o.i] = o.v]
      [] o.k \in {"disable", "break", "eof", "recv"} -> Pass([x EXCEPT !.cs[o.i] = Step(@, o)], x.now)
      [] o.k = "stop" -> IF x.stop THEN x ELSE Stop(Pass(x, x.now + 1))
      [] o.k = "manage" -> Pass(Manage(x), x.now)
      (* Asked to manage while managing. *)
      [] o.k = "again" -> IF x.run /\ x.shut = 0 THEN [x EXCEPT !.second = "waiting"] ELSE x
      [] o.k = "poll" -> IF x.shut = 0 THEN [x EXCEPT !.polled = IF x.run THEN x.list ELSE <<>>] ELSE x
      [] o.k = "adv" -> Pass(x, x.now + o.d)

CSeen(c) == <<c.en, c.exi, c.phase # "idle", c.closes, c.rs, c.ra, Len(c.tries),
              IF c.tries = <<>> THEN -1 ELSE c.tries[Len(c.tries)], c.got>>
MSeen(x) == [cs |-> [i \in 1..Len(x.cs) |-> CSeen(x.cs[i])],
             list |-> IF x.run /\ x.shut = 0 THEN x.list ELSE <<>>, queued |-> Len(x.queue),
             run |-> x.run, done |-> x.done, second |-> x.second, polled |-> x.polled]
MDo(o) == m' = MStep(m, o) /\ obs' = MSeen(m') /\ s' = s

-----------------------------------------------------------------------------
Ix == 1..Len(m.cs)
(* Exactly the managed connections are processed, each listed once. *)
Listed == \A i, j \in 1..Len(m.list) : i # j => m.list[i] # m.list[j]
Processed == \A i \in Ix : (m.cs[i].phase # "idle") => Managed(m, i)
Alive == (m.run /\ m.shut = 0) => \A i \in Ix : Managed(m, i) => m.cs[i].phase # "idle"
NotBoth == m.shut = 0 => \A i \in Ix : ~(Managed(m, i) /\ InQueue(m, i))
(* Nothing is left running when managing is over. *)
AllDown == ~m.run => \A i \in Ix : m.cs[i].phase = "idle"
Bounded == m.shut # 0 => m.now < m.shut
=============================================================================
