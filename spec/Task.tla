-------------------------------- MODULE Task --------------------------------
(***************************************************************************)
(* Periodic tasks (runtimepy.task.PeriodicTask and its manager) and        *)
(* asynchronous tasks (runtimepy.task.AsyncTask): iterations once per      *)
(* period while enabled, and everything that ends a task.                  *)
(*                                                                         *)
(* A dispatch lasts until it's told how to finish ("ok", "no" or "raise"). *)
(* A unit of time is 1/8 s.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth      (* Of the average of dispatch times. *)
VARIABLES w, obs
wvars == <<w>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NewTask(c) ==
    [fl |-> c.fl, period |-> c.period, maxit |-> c.maxit, gate |-> c.gate,
     en |-> FALSE, phase |-> "idle", t0 |-> 0, p0 |-> 0, wake |-> 0, paused |-> FALSE, sigd |-> FALSE,
     done |-> "none", has |-> FALSE, orph |-> 0, n |-> 0, dn |-> 0, over |-> 0, win |-> <<>>, mx |-> 0, mn |-> 0,
     some |-> FALSE, extras |-> 0, res |-> FALSE]
WFresh(cs) == [ts |-> [i \in 1..Len(cs) |-> NewTask(cs[i])], now |-> 0, sig |-> FALSE]

Per(x) == x.fl = "periodic"
End(x, how) == [x EXCEPT !.phase = "idle", !.done = how, !.en = IF Per(x) \/ how = "ok" THEN FALSE ELSE @]
(* The next iteration, or the end. *)
Iter(x, now) ==
    IF ~x.en THEN End(x, "ok")
    ELSE IF Per(x) /\ x.paused THEN [x EXCEPT !.phase = "after", !.t0 = now]
    ELSE [x EXCEPT !.phase = "disp", !.t0 = now, !.p0 = x.period, !.n = @ + 1]
(* After an iteration that took some time. *)
RECURSIVE After(_, _, _, _)
After(x, took, now, sig) ==
    LET y == IF x.sigd /\ sig THEN [x EXCEPT !.en = FALSE] ELSE x
        wait == Max2(y.period - took, 0)
    IN IF ~y.en THEN End(y, "ok")
       ELSE IF wait > 0 THEN [y EXCEPT !.phase = "sleep", !.wake = now + wait]
       ELSE LET z == Iter(y, now) IN IF z.phase = "after" THEN After(z, 0, now, sig) ELSE z
Next1(x, now, sig) == LET y == Iter(x, now) IN IF y.phase = "after" THEN After(y, 0, now, sig) ELSE y
Measured(x, took) ==
    [x EXCEPT !.dn = @ + 1, !.win = IF Len(@) = Depth THEN Append(Tail(@), took) ELSE Append(@, took),
              !.mx = IF x.some THEN Max2(@, took) ELSE took, !.mn = IF x.some THEN Min2(@, took) ELSE took,
              !.some = TRUE, !.over = IF Per(x) /\ took > x.p0 THEN @ + 1 ELSE @]
Finish(x, r, now, sig) ==
    IF x.phase = "init" THEN
        IF r = "raise" THEN End(x, "raised")
        ELSE Next1(IF r = "no" THEN [x EXCEPT !.en = FALSE] ELSE x, now, sig)
    ELSE IF x.phase = "disp" THEN
        IF r = "raise" THEN End(x, "raised")
        ELSE LET y == Measured(IF r = "no" THEN [x EXCEPT !.en = FALSE] ELSE x, now - x.t0)
                 z == IF ~Per(y) /\ y.maxit > 0 /\ y.dn >= y.maxit THEN [y EXCEPT !.en = FALSE] ELSE y
             IN After(z, now - x.t0, now, sig)
    ELSE IF x.orph > 0 THEN [x EXCEPT !.orph = @ - 1] ELSE x
(* The underlying asyncio task is cancelled: what it dispatched isn't. *)
Cancel(x) ==
    CASE x.phase = "sleep" -> End([x EXCEPT !.en = FALSE], "ok")
      [] x.phase \in {"disp", "init"} -> [End(x, "cancelled") EXCEPT !.orph = @ + 1]
      [] OTHER -> x
StopTask(x) == IF ~x.has THEN [x EXCEPT !.res = FALSE]
               ELSE [Cancel([x EXCEPT !.en = IF x.phase # "idle" THEN FALSE ELSE @]) EXCEPT
                       !.has = FALSE, !.extras = @ + 1, !.res = TRUE]
StartTask(x, o, now, sig) ==
    IF Per(x)
    THEN LET y == StopTask(x) IN
         Next1([y EXCEPT !.has = TRUE, !.en = TRUE, !.done = "none", !.sigd = o.sig, !.res = TRUE,
                         !.period = IF o.p = 0 THEN @ ELSE o.p], now, sig)
    ELSE IF x.phase # "idle" THEN x
    ELSE LET y == [x EXCEPT !.en = TRUE, !.done = "none", !.sigd = o.sig, !.dn = 0, !.win = <<>>,
                            !.mx = 0, !.mn = 0, !.some = FALSE, !.res = TRUE]
         IN IF y.gate THEN [y EXCEPT !.phase = "init"] ELSE Next1(y, now, sig)
RECURSIVE Due(_, _, _)
Due(x, t, sig) == IF x.phase = "sleep" /\ x.wake <= t THEN Due(Next1(x, x.wake, sig), t, sig) ELSE x

WStep(x, o) ==
    CASE o.k = "start" -> [x EXCEPT !.ts[o.i] = StartTask(@, o, x.now, x.sig)]
      (* As a group. *)
      [] o.k = "startall" -> [x EXCEPT !.ts = [i \in 1..Len(x.ts) |->
             StartTask(x.ts[i], [sig |-> TRUE, p |-> 0], x.now, x.sig)]]
      [] o.k = "stopall" -> [x EXCEPT !.ts = [i \in 1..Len(x.ts) |-> StopTask(x.ts[i])]]
      [] o.k = "stop" -> [x EXCEPT !.ts[o.i] = StopTask(@)]
      [] o.k = "cancel" -> [x EXCEPT !.ts[o.i] = Cancel(@)]
      [] o.k = "disable" -> [x EXCEPT !.ts[o.i].res = x.ts[o.i].en, !.ts[o.i].en = FALSE]
      [] o.k = "pause" -> [x EXCEPT !.ts[o.i].paused = o.v]
      [] o.k = "period" -> [x EXCEPT !.ts[o.i].res = x.ts[o.i].period # o.p, !.ts[o.i].period = o.p]
      [] o.k = "sig" -> [x EXCEPT !.sig = o.v]
      [] o.k = "finish" -> [x EXCEPT !.ts[o.i] = Finish(@, o.r, x.now, x.sig)]
      [] o.k = "adv" -> [x EXCEPT !.now = @ + o.d,
                                  !.ts = [i \in 1..Len(x.ts) |-> Due(x.ts[i], x.now + o.d, x.sig)]]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
One(x) == <<x.en, x.phase # "idle", x.done, x.n, IF x.phase \in {"disp", "init"} THEN 1 + x.orph ELSE x.orph,
            x.dn, x.over, Sum(x.win), x.mx, x.mn, x.period, x.extras, x.res>>
WSeen(x) == [ts |-> [i \in 1..Len(x.ts) |-> One(x.ts[i])]]
WDo(o) == w' = WStep(w, o) /\ obs' = WSeen(w')

-----------------------------------------------------------------------------
Ix == 1..Len(w.ts)
(* A periodic task is enabled only while it runs. *)
Enabled == \A i \in Ix : w.ts[i].en /\ Per(w.ts[i]) => w.ts[i].phase # "idle"
Sleeping == \A i \in Ix : w.ts[i].phase = "sleep" => w.ts[i].wake > w.now /\ w.ts[i].wake <= w.now + 100
Counted == \A i \in Ix : w.ts[i].fl = "periodic" => w.ts[i].dn <= w.ts[i].n
Limited == \A i \in Ix : LET x == w.ts[i] IN ~Per(x) /\ x.maxit > 0 => x.dn <= x.maxit
(* No iteration begins while disabled or paused. *)
Begins == [][\A i \in Ix : w'.ts[i].n > w.ts[i].n => w'.ts[i].en /\ ~(Per(w.ts[i]) /\ w'.ts[i].paused)]_wvars
=============================================================================
