-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* The life of a connection (runtimepy.net.connection.Connection, and the  *)
(* TCP and UDP connections built on it): processing, reading, writing,     *)
(* initialization, everything that disables it, and restarts with          *)
(* exponential back-off.                                                   *)
(*                                                                         *)
(* A message is <<n, r>>: a number and what its handler (or the underlying *)
(* send) does with it: "ok", "no" (refuse it), "raise" or "block" (until   *)
(* released).  Each operation runs until nothing more can happen at the    *)
(* present instant.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Interval, MaxSleep, MaxTries
VARIABLES s, obs
connvars == <<s>>

(* flav: "queue" (messages to send go through queues), "tcp" or "udp"      *)
(* (they are written at once).                                             *)
Fresh(flav, init, plan) ==
    [flav |-> flav, init |-> init, plan |-> plan, badc |-> FALSE,
     en |-> TRUE, ini |-> FALSE, exi |-> FALSE, phase |-> "idle", done |-> "none",
     open |-> TRUE, stop |-> FALSE, lstn |-> FALSE, gate |-> FALSE, dlim |-> 0,
     inq |-> <<>>, outt |-> <<>>, outb |-> <<>>, blocked |-> FALSE, extra |-> 0,
     got |-> <<>>, fin |-> 0, sent |-> <<>>, sentb |-> <<>>,
     closes |-> 0, rs |-> 0, ra |-> 0, tries |-> <<>>, at |-> 0, wake |-> 0, wait |-> 0, now |-> 0, dt |-> 0]

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE IF n > 20 THEN P2(20) ELSE 2 * P2(n - 1)

(* The processing that was active ends: closed exactly once. *)
Ended(x) == [x EXCEPT !.phase = "idle", !.done = IF x.badc THEN "raised" ELSE "ok", !.exi = ~x.badc, !.closes = @ + 1, !.gate = FALSE,
                      !.open = FALSE, !.dlim = 0, !.blocked = FALSE]
Disable(x) ==
    IF ~x.en THEN x
    ELSE LET y == [x EXCEPT !.en = FALSE, !.ini = FALSE, !.extra = 0] IN
         IF x.phase = "run" THEN Ended(y) ELSE y

(* Handle what has arrived. *)
RECURSIVE Read(_)
Read(x) ==
    IF ~x.en \/ x.phase # "run" \/ x.blocked \/ x.inq = <<>> THEN x
    ELSE LET m == Head(x.inq)
             y == [x EXCEPT !.inq = Tail(@), !.got = Append(@, m[1])]
         IN CASE m[2] = "ok" -> Read([y EXCEPT !.fin = @ + 1])
              [] m[2] = "block" -> [y EXCEPT !.blocked = TRUE]
              [] m[2] = "no" -> Disable([y EXCEPT !.fin = @ + 1])
              [] m[2] = "raise" -> Disable(y)
              [] m[2] = "end" -> Disable(x)
RECURSIVE WriteText(_)
WriteText(x) ==
    IF ~x.en \/ x.phase # "run" \/ x.outt = <<>> THEN x
    ELSE LET m == Head(x.outt)  y == [x EXCEPT !.outt = Tail(@)] IN
         IF m[2] = "raise" THEN Disable(y) ELSE WriteText([y EXCEPT !.sent = Append(@, m[1])])
RECURSIVE WriteBin(_)
WriteBin(x) ==
    IF ~x.en \/ x.phase # "run" \/ x.outb = <<>> THEN x
    ELSE LET m == Head(x.outb)  y == [x EXCEPT !.outb = Tail(@)] IN
         IF m[2] = "raise" THEN Disable(y) ELSE WriteBin([y EXCEPT !.sentb = Append(@, m[1])])
Settle(x) == WriteBin(WriteText(Read(x)))

(* Initialization: always marks the end of it, even when it failed. *)
Init1(x, r) ==
    LET y == [x EXCEPT !.gate = FALSE] IN
    CASE r = "ok" -> [y EXCEPT !.ini = TRUE]
      [] r = "no" -> [Disable(y) EXCEPT !.ini = TRUE]
      [] r = "raise" -> Disable(y)
Begin(x) ==
    LET y == [x EXCEPT !.phase = "run", !.exi = FALSE, !.gate = (x.init = "gate"),
                       !.dlim = IF x.dt = 0 THEN 0 ELSE x.now + x.dt]
        z == Settle(y)
        a == IF z.phase = "run" /\ z.init = "ok" THEN Init1(z, "ok") ELSE z
    IN IF a.phase = "run" /\ a.lstn /\ a.stop THEN Disable(a) ELSE a

(* Restart attempts: the first right away, then after growing waits. *)
RECURSIVE Attempts(_)
Attempts(x) ==
    IF x.en THEN Begin(x)
    ELSE IF x.at >= MaxTries \/ (x.lstn /\ x.stop) THEN [x EXCEPT !.phase = "idle", !.done = "ok"]
    ELSE [x EXCEPT !.phase = "wait", !.wake = x.now + x.wait]
Attempt(x) ==
    LET res == IF x.plan = <<>> THEN "ok" ELSE Head(x.plan)
        y == [x EXCEPT !.wait = Min2(P2(x.at) * Interval, MaxSleep), !.at = @ + 1,
                       !.plan = IF @ = <<>> THEN @ ELSE Tail(@),
                       !.ra = IF res = "raise" THEN @ ELSE @ + 1,
                       !.tries = Append(@, x.now)]
    IN IF res = "raise" THEN [y EXCEPT !.phase = "idle", !.done = "raised"]
       ELSE IF res = "ok" THEN Attempts([y EXCEPT !.en = TRUE, !.ini = FALSE, !.rs = @ + 1, !.open = TRUE, !.inq = <<>>])
       ELSE Attempts(y)
(* Everything that is due by time t. *)
RECURSIVE Due(_, _)
Due(x, t) ==
    IF x.phase = "wait" /\ x.wake <= t THEN Due(Attempt([x EXCEPT !.now = x.wake]), t)
    ELSE IF x.phase = "run" /\ x.dlim # 0 /\ x.dlim <= t THEN Due(Disable([x EXCEPT !.now = x.dlim]), t)
    ELSE [x EXCEPT !.now = t]
Start(x, o) ==
    LET y == [x EXCEPT !.done = "none", !.lstn = o.stop, !.dt = o.dt, !.at = 0, !.wait = 0] IN
    Due(Attempts(y), x.now)

Queued(x) == x.flav = "queue"
Step(x, o) ==
    (* One processing at a time. *)
    CASE o.k = "start" -> IF x.phase = "idle" THEN Start(x, o) ELSE x
      [] o.k = "recv" -> IF x.open THEN Settle([x EXCEPT !.inq = @ \o o.ms]) ELSE x
      [] o.k = "eof" ->
           IF ~x.open THEN x
           ELSE IF Queued(x) THEN Settle([x EXCEPT !.inq = Append(@, <<0, "end">>)])
           ELSE Disable([x EXCEPT !.open = (x.flav = "udp")])
      [] o.k = "text" -> IF Queued(x) THEN Settle([x EXCEPT !.outt = @ \o o.ms])
                         ELSE [x EXCEPT !.sent = IF x.open THEN @ \o [i \in 1..Len(o.ms) |-> o.ms[i][1]] ELSE @]
      [] o.k = "bin" -> IF Queued(x) THEN Settle([x EXCEPT !.outb = @ \o o.ms])
                        ELSE [x EXCEPT !.sent = IF x.open THEN @ \o [i \in 1..Len(o.ms) |-> o.ms[i][1]] ELSE @]
      (* Everything at once: nothing of it is handled any more. *)
      [] o.k = "drop" -> LET y == IF x.open /\ o.what = "recv" THEN [x EXCEPT !.inq = @ \o o.ms]
                                  ELSE IF o.what = "text" /\ Queued(x) THEN [x EXCEPT !.outt = @ \o o.ms] ELSE x
                         IN Disable(y)
      [] o.k = "disable" -> Disable(x)
      [] o.k = "stop" -> LET y == [x EXCEPT !.stop = TRUE] IN
                         IF y.phase = "run" /\ y.lstn THEN Disable(y) ELSE y
      [] o.k = "resume" -> [x EXCEPT !.stop = FALSE]
      [] o.k = "init" -> IF x.gate THEN Init1(x, o.r) ELSE x
      [] o.k = "release" -> IF ~x.blocked THEN x
                            ELSE LET y == [x EXCEPT !.blocked = FALSE, !.fin = @ + 1] IN
                                 IF o.ok THEN Settle(y) ELSE Disable(y)
      [] o.k = "task" -> IF x.en THEN [x EXCEPT !.extra = @ + 1] ELSE x
      (* Closing it fails from now on. *)
      [] o.k = "break" -> [x EXCEPT !.badc = TRUE]
      (* The old transport reports its end late. *)
      [] o.k = "late" -> x
      [] o.k = "adv" -> Due(x, x.now + o.d)

Seen(x) == [en |-> x.en, ini |-> x.ini, exi |-> x.exi, run |-> x.phase # "idle", done |-> x.done,
            got |-> x.got, fin |-> x.fin, sent |-> x.sent, sentb |-> x.sentb, closes |-> x.closes,
            rs |-> x.rs, ra |-> x.ra, tries |-> x.tries, tasks |-> x.extra, busy |-> x.blocked]
Do(o) == s' = Step(s, o) /\ obs' = Seen(s')

-----------------------------------------------------------------------------
(* Nothing is handled or sent while disabled or not processing. *)
Quiet == (~s.en \/ s.phase # "run") => (~s.blocked /\ ~s.gate /\ s.dlim = 0)
ActiveEnabled == s.phase = "run" => s.en
Waiting == s.phase = "wait" => ~s.en
NoTasks == ~s.en => s.extra = 0
Counters == s.rs <= s.ra /\ s.ra <= Len(s.tries)
(* Waits double up to the limit, starting with none. *)
IsSorted == \A i \in 1..(Len(s.tries) - 1) : s.tries[i] <= s.tries[i + 1]
(* A connection that ended was closed; each processing closes once. *)
ClosedOnce == [][s'.closes <= s.closes + 1 /\ (s'.closes > s.closes => (s'.exi \/ s'.badc) /\ ~s'.en)]_<<s, obs>>
=============================================================================
