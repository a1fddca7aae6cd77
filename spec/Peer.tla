-------------------------------- MODULE Peer --------------------------------
(***************************************************************************)
(* A program that runs as a process of its own and the peer that started   *)
(* it.  Three pipes join them: the program's input carries the host's      *)
(* messages, its output carries its own, and its error output carries the  *)
(* changes of its channels.  Each pipe keeps its order, may deliver        *)
(* everything in pieces and may stall for any time; nothing relates the    *)
(* order of one to that of another.                                        *)
(*                                                                         *)
(* One step is one thing somebody does, and everything that happens until  *)
(* both sides are quiet.  A request nobody answered lasts for two steps.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
VARIABLES x, obs
Names == <<"n", "x", "b", "f">>
Commandable == {"n", "b", "f"}
Flags == {"b", "f"}
Pos(c) == IF c = "n" THEN 1 ELSE IF c = "x" THEN 2 ELSE IF c = "b" THEN 3 ELSE IF c = "f" THEN 4 ELSE 0
Four(v) == <<v, v, v, v>>
Idle == [id |-> 0, t0 |-> 0]
Cmd0 == [o |-> "", c |-> "", v |-> 0, f |-> FALSE]
Item(k, id) == [k |-> k, id |-> id, v |-> 0, cmd |-> Cmd0, logs |-> <<>>, env |-> <<>>]

Fresh(cfg) ==
    [early |-> cfg.early, now |-> 0, ids |-> 0, held |-> {}, blocked |-> 0,
     pin |-> <<>>, pout |-> <<>>, perr |-> <<>>,
     \* the host: its handshake, what it knows, what it waits for
     hs |-> "no", gone |-> FALSE, known |-> FALSE, mir |-> <<>>, hval |-> <<0, 0, 0, 0>>,
     hq |-> <<>>, hw |-> Idle, hstaged |-> <<>>, conf |-> 0, exited |-> FALSE, killed |-> FALSE,
     \* the program
     ps |-> "none", val |-> <<0, 0, 0, 0>>, far |-> <<>>, staged |-> <<>>, hb |-> Idle,
     shares |-> <<>>, clean |-> 0,
     \* what can be seen of a step
     seen |-> Four(<<>>), hlogs |-> <<>>, plogs |-> <<>>, hres |-> <<>>, pres |-> <<>>, polls |-> <<0, 0>>]

Quiet(y) == [y EXCEPT !.seen = Four(<<>>), !.hlogs = <<>>, !.plogs = <<>>, !.hres = <<>>, !.pres = <<>>]
Alive(y) == y.ps \in {"wait", "first", "up"}
Open(y, p) == p \notin y.held

(* Messages take along the records staged so far. *)
HSend(y, m) == [y EXCEPT !.pin = Append(@, [m EXCEPT !.logs = y.hstaged]), !.hstaged = <<>>]
PSend(y, m) == [y EXCEPT !.pout = Append(@, [m EXCEPT !.logs = y.staged]), !.staged = <<>>]

Emit(y, c) == IF y.ps = "up" THEN [y EXCEPT !.perr = Append(@, <<c, y.val[Pos(c)]>>)] ELSE y
Change(y, c, v) == IF y.val[Pos(c)] = v THEN y ELSE Emit([y EXCEPT !.val[Pos(c)] = v], c)
Current(y) == [i \in 1..4 |-> <<Names[i], y.val[i]>>]

(* What a command's words mean. *)
Means(cmd) == /\ cmd.c \in Commandable \/ (cmd.f /\ cmd.c = "x")
              /\ IF cmd.o = "toggle" THEN cmd.c \in Flags ELSE cmd.c \in {"n", "x", "f"} /\ cmd.v < 500
Held(c, v) == IF c = "f" THEN v % 2 ELSE IF v > 255 THEN 255 ELSE v
Perform(y, cmd) ==
    IF ~Means(cmd) THEN y
    ELSE Change(y, cmd.c, IF cmd.o = "toggle" THEN 1 - y.val[Pos(cmd.c)] ELSE Held(cmd.c, cmd.v))

NextId(y) == y.ids + 1
HRequest(y, m) == HSend([y EXCEPT !.ids = @ + 1, !.hw = [id |-> y.ids + 1, t0 |-> y.now]], [m EXCEPT !.id = y.ids + 1])

(* The program takes a message. *)
PTake(z) ==
    LET m == Head(z.pin)
        y == [z EXCEPT !.pin = Tail(@), !.plogs = @ \o m.logs]
        reply == Item("rep", m.id)
    IN IF ~Alive(y) THEN [y EXCEPT !.plogs = z.plogs]
       ELSE IF m.k \in {"loop", "meta"} THEN PSend(y, [reply EXCEPT !.k = m.k])
       ELSE IF m.k = "env"
       THEN LET a == PSend([y EXCEPT !.far = m.env, !.ps = "first"], [reply EXCEPT !.k = "env", !.env = y.val])
            IN PSend(a, Item("first", 0))
       ELSE IF m.k = "cmd" THEN PSend(Perform(y, m.cmd), [reply EXCEPT !.v = IF Means(m.cmd) THEN 1 ELSE 0])
       ELSE IF m.k = "first" THEN [y EXCEPT !.ps = "up", !.perr = @ \o Current(y)]
       ELSE IF m.k = "poll"
       THEN LET a == [y EXCEPT !.polls[2] = @ + 1]
            IN IF m.v = 0 THEN a ELSE PSend(a, [Item("poll", 0) EXCEPT !.v = m.v - 1])
       ELSE IF m.k = "rep" /\ m.id = y.hb.id THEN [y EXCEPT !.hb = Idle]
       ELSE IF m.k = "prep" THEN [y EXCEPT !.pres = Append(@, m.v)]
       ELSE IF m.k = "share"
       THEN [y EXCEPT !.shares = [i \in DOMAIN @ |-> IF @[i].id = m.id /\ @[i].st = 0 THEN [@[i] EXCEPT !.st = 1] ELSE @[i]]]
       ELSE y

(* The host takes a message. *)
HTake(z) ==
    LET m == Head(z.pout)
        y == [z EXCEPT !.pout = Tail(@), !.hlogs = @ \o m.logs]
    IN IF y.gone THEN [y EXCEPT !.hlogs = z.hlogs]
       ELSE IF m.k = "loop" THEN HSend([y EXCEPT !.hs = "meta"], Item("meta", 0))
       ELSE IF m.k = "meta" THEN HSend([y EXCEPT !.hs = "env"], [Item("env", 0) EXCEPT !.env = y.hval])
       ELSE IF m.k = "env" THEN [y EXCEPT !.hs = "up", !.known = TRUE, !.mir = m.env]
       ELSE IF m.k = "first" THEN HSend(y, Item("first", 0))
       ELSE IF m.k = "hb" THEN HSend(y, Item("rep", m.id))
       ELSE IF m.k = "pcmd" THEN LET a == IF Means(m.cmd) THEN [y EXCEPT !.hval[Pos(m.cmd.c)] =
                                              IF m.cmd.o = "toggle" THEN 1 - @ ELSE Held(m.cmd.c, m.cmd.v)] ELSE y
                                 IN HSend(a, [Item("prep", m.id) EXCEPT !.v = IF Means(m.cmd) THEN 1 ELSE 0])
       ELSE IF m.k = "share"
       THEN HSend([y EXCEPT !.conf = IF @ = 0 THEN m.v ELSE @], Item("share", m.id))
       ELSE IF m.k = "poll"
       THEN LET a == [y EXCEPT !.polls[1] = @ + 1]
            IN IF m.v = 0 THEN a ELSE HSend(a, [Item("poll", 0) EXCEPT !.v = m.v - 1])
       ELSE IF m.k = "rep" /\ m.id = y.hw.id THEN [y EXCEPT !.hw = Idle, !.hres = Append(@, m.v)]
       ELSE y

(* The host takes a change. *)
HEvent(y) ==
    LET e == Head(y.perr)
        i == Pos(e[1])
        a == [y EXCEPT !.perr = Tail(@)]
    IN IF ~y.known \/ y.gone \/ y.mir[i] = e[2] THEN a
       ELSE [a EXCEPT !.mir[i] = e[2], !.seen[i] = Append(@, e[2])]

(* One thing that can happen at once; the pipe of changes is served first. *)
Step(y) ==
    IF Open(y, "err") /\ y.perr # <<>> THEN HEvent(y)
    ELSE IF Open(y, "in") /\ y.pin # <<>> THEN PTake(y)
    ELSE IF Open(y, "out") /\ y.pout # <<>> THEN HTake(y)
    ELSE IF y.hq # <<>> /\ y.hw.id = 0 /\ y.hs = "up" /\ ~y.gone
    THEN HRequest([y EXCEPT !.hq = Tail(@)], [Item("cmd", 0) EXCEPT !.cmd = Head(y.hq)])
    ELSE IF y.ps = "up" /\ y.hb.id = 0 /\ (y.staged # <<>> \/ y.hstaged # <<>> \/ "in" \in y.held \/ "out" \in y.held)
    THEN PSend([y EXCEPT !.ids = @ + 1, !.hb = [id |-> y.ids + 1, t0 |-> y.now]], Item("hb", y.ids + 1))
    ELSE y
Steps == [i \in 1..80 |-> i]
Settle(z) == FoldLeft(LAMBDA y, i : Step(y), z, Steps)
Settled(y) == Step(y) = y

(* What nobody answered in time. *)
Late(y, w) == w.id # 0 /\ y.now - w.t0 >= 2
Expire(y) ==
    LET a == IF Late(y, y.hw) THEN [y EXCEPT !.hw = Idle, !.hres = Append(@, 2)] ELSE y
        b == IF Late(y, y.hb) /\ y.ps = "up" THEN [a EXCEPT !.hb = Idle] ELSE a
    IN [b EXCEPT !.shares = [i \in DOMAIN @ |->
           IF @[i].st = 0 /\ y.now - @[i].t0 >= 2 /\ Alive(y) THEN [@[i] EXCEPT !.st = 2] ELSE @[i]]]

See(y) ==
    [up |-> <<y.hs = "up", y.known, y.far # <<>>, y.ps = "up">>,
     end |-> <<y.ps = "done", y.clean, y.killed, y.exited, 0>>,
     val |-> IF y.ps = "none" THEN <<>> ELSE y.val,
     hval |-> y.hval,
     mir |-> y.mir,
     far |-> y.far,
     seen |-> y.seen,
     logs |-> <<y.hlogs, y.plogs>>,
     res |-> IF y.gone THEN <<>> ELSE <<y.hres, y.pres>>,
     polls |-> y.polls,
     cfg |-> <<y.conf, IF y.gone \/ y.ps # "up" THEN <<>> ELSE [i \in DOMAIN y.shares |-> y.shares[i].st]>>]

(* What the one or the other does. *)
Begin(y) ==
    LET a == [y EXCEPT !.hs = "loop", !.ps = "wait"]
        b == IF y.early THEN [a EXCEPT !.perr = Current(a) \o <<<<"n", 77>>, <<"b", 1>>>>, !.val = <<77, 0, 1, 0>>] ELSE a
    IN HSend(b, Item("loop", 0))
Die(y) == [y EXCEPT !.ps = "dead", !.pin = <<>>, !.exited = TRUE]
Fail(y) == [y EXCEPT !.ps = "done", !.pin = <<>>, !.exited = TRUE, !.clean = 1]
Close(y) ==
    LET a == [y EXCEPT !.gone = TRUE, !.exited = TRUE]
    IN IF ~Alive(y) THEN a
       ELSE IF Open(y, "in") /\ y.ps = "up" THEN [a EXCEPT !.ps = "done", !.clean = 1]
       ELSE [a EXCEPT !.ps = "dead", !.killed = TRUE, !.pin = <<>>]
Act(y, op) ==
    CASE op.k = "start" -> Begin(y)
      [] op.k = "hold" -> [y EXCEPT !.held = @ \cup {op.p}]
      [] op.k = "free" -> [y EXCEPT !.held = @ \ {op.p}]
      [] op.k = "pset" -> Change(y, op.c, op.v)
      [] op.k = "hset" -> [y EXCEPT !.hval[Pos(op.c)] = op.v]
      [] op.k = "cmd" -> [y EXCEPT !.hq = Append(@, [o |-> op.o, c |-> op.c, v |-> op.v, f |-> op.f])]
      [] op.k = "pcmd" -> PSend(y, [Item("pcmd", 0) EXCEPT !.cmd = [o |-> op.o, c |-> op.c, v |-> op.v, f |-> op.f]])
      [] op.k = "log" -> [y EXCEPT !.staged = Append(@, op.t)]
      [] op.k = "hlog" -> [y EXCEPT !.hstaged = Append(@, op.t)]
      [] op.k = "share" -> PSend([y EXCEPT !.ids = @ + 1,
                                           !.shares = Append(@, [id |-> y.ids + 1, st |-> 0, t0 |-> y.now])],
                                 [Item("share", y.ids + 1) EXCEPT !.v = op.v])
      [] op.k = "poll" -> IF op.s = "h" THEN HSend(y, [Item("poll", 0) EXCEPT !.v = op.v])
                          ELSE PSend(y, [Item("poll", 0) EXCEPT !.v = op.v])
      [] op.k = "die" -> Die(y)
      [] op.k = "fail" -> Fail(y)
      [] op.k = "close" -> Close(y)
      [] OTHER -> y
Blocked(y) == "in" \in y.held \/ "out" \in y.held
After(y, op) ==
    LET a == Act([Quiet(y) EXCEPT !.now = @ + 1], op)
        b == Settle(Expire(Settle(a)))
    IN [b EXCEPT !.blocked = IF Blocked(b) /\ b.hs # "no" THEN @ + 1 ELSE 0]

Both(y) == ~Blocked(y)
Running(y) == y.hs = "up" /\ y.ps = "up" /\ ~y.gone
(* The environment's promises: a stall during the handshake ends before    *)
(* anybody gives up, and no stall outlasts five steps.                     *)
Patient(y, op) ==
    LET most == IF y.ps \in {"dead", "done"} THEN 6 ELSE IF y.hs \in {"up", "no"} /\ y.ps \in {"up", "none"} THEN 4 ELSE 2
    IN y.blocked < most \/ (op.k = "free" /\ y.held \cap {"in", "out"} = {op.p}) \/ op.k = "close"
Allowed(y, op) ==
    /\ ~y.gone
    /\ Patient(y, op)
    /\ CASE op.k = "start" -> y.hs = "no"
         [] op.k = "hold" -> op.p \notin y.held
         [] op.k = "free" -> op.p \in y.held
         [] op.k \in {"pset", "log"} -> Alive(y)
         [] op.k = "hset" -> y.hs # "no"
         [] op.k = "hlog" -> y.hs # "no"
         [] op.k = "cmd" -> y.hs = "up" /\ y.known
         [] op.k = "pcmd" -> Running(y) /\ Both(y)
         [] op.k = "share" -> Running(y)
         [] op.k = "poll" -> y.known /\ (op.s = "h" \/ y.ps = "up")
         [] op.k = "die" -> y.hs = "up" /\ Alive(y)
         [] op.k = "fail" -> Running(y)
         [] op.k = "close" -> y.hs = "up"
         [] OTHER -> FALSE
XInit(cfg) == x = Fresh(cfg) /\ obs = See(Fresh(cfg))
XDo(op) == /\ x' = IF Allowed(x, op) THEN After(x, op) ELSE Quiet(x)
           /\ obs' = See(x')

-----------------------------------------------------------------------------
(* Everything got where it goes in a step. *)
Done == Settled(x)
(* With nothing stalled, what the host sees of the program is what's there *)
Faithful == (Running(x) /\ x.held = {}) => x.mir = x.val
(* and nobody waits for anything. *)
Responsive == (Running(x) /\ Both(x)) =>
    /\ x.hq = <<>> /\ x.hw.id = 0 /\ x.staged = <<>> /\ x.hstaged = <<>>
    /\ \A i \in DOMAIN x.shares : x.shares[i].st # 0
(* Either side knows the other before anything is told. *)
Ordered == (x.ps = "up" => x.known) /\ (x.known => x.far # <<>>)
(* A program's end is tidy or forced, never both. *)
Ends == /\ x.clean <= 1 /\ (x.clean = 1 => x.ps = "done" /\ ~x.killed)
        /\ (x.gone => x.exited /\ x.ps \in {"done", "dead"})
=============================================================================
