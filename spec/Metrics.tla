------------------------------ MODULE Metrics -------------------------------
(***************************************************************************)
(* What a connection says about its traffic: for each direction how many   *)
(* messages and bytes there were, and at which rate in the intervals       *)
(* between the latest Depth looks at it.  A look happens with each message *)
(* and poll.  Time is in quarters of a second.  Two connections have a       *)
(* manager.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Depth
VARIABLES x, obs

Zero == [n |-> 0, b |-> 0, acc |-> <<0, 0>>, at |-> 0 - 1, win |-> <<>>]
(* (The clock is far from zero.) *)
Conn == [tx |-> Zero, rx |-> Zero, total |-> <<0, 0>>]
Fresh(cfg) == [now |-> 0, conn |-> <<Conn, Conn>>, copy |-> <<>>]

Push(w, e) == LET a == Append(w, e) IN IF Len(a) > Depth THEN Tail(a) ELSE a
Look(c, now) ==
    IF c.at >= 0 /\ now > c.at
    THEN [c EXCEPT !.win = Push(@, <<now - c.at, c.acc[1], c.acc[2]>>), !.acc = <<0, 0>>, !.at = now]
    ELSE [c EXCEPT !.at = now]
Count(c, bytes, now) ==
    Look([c EXCEPT !.n = @ + 1, !.b = @ + bytes, !.acc = <<@[1] + 1, @[2] + bytes>>], now)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Ratio(a, b) == IF a = 0 \/ b = 0 THEN <<0, 1>> ELSE <<a \div Gcd(a, b), b \div Gcd(a, b)>>
Sum(w, i) == FoldLeft(LAMBDA a, e : a + e[i], 0, w)
(* Messages per second; kilobits per second. *)
Rate(c) == Ratio(4 * Sum(c.win, 2), Sum(c.win, 1))
Kbps(c) == Ratio(4 * Sum(c.win, 3), 125 * Sum(c.win, 1))
View(c) == <<c.n, c.b, Rate(c), Kbps(c)>>

(* A wide character has two bytes. *)
Bytes(op) == IF op.wide THEN 2 * op.n ELSE op.n
Allowed(y, op) ==
    CASE op.k \in {"send", "recv"} -> ~(op.wide /\ ~op.text)
      [] op.k \in {"poll", "reset", "pollall", "resetall", "copy", "tick", "log"} -> TRUE
      [] OTHER -> FALSE
Poll(c, now) == [c EXCEPT !.tx = Look(@, now), !.rx = Look(@, now)]
Both(c) == <<View(c.tx), View(c.rx)>>
Act(y, op) ==
    CASE op.k = "send" -> [y EXCEPT !.conn[op.c].tx = Count(@, Bytes(op), y.now), !.conn[op.c].total[1] = @ + 1]
      [] op.k = "recv" -> [y EXCEPT !.conn[op.c].rx = Count(@, Bytes(op), y.now), !.conn[op.c].total[2] = @ + 1]
      [] op.k = "poll" -> [y EXCEPT !.conn[op.c] = Poll(@, y.now)]
      [] op.k = "pollall" -> [y EXCEPT !.conn = [i \in DOMAIN @ |-> Poll(@[i], y.now)]]
      [] op.k = "reset" -> [y EXCEPT !.conn[op.c] = Conn]
      [] op.k = "resetall" -> [y EXCEPT !.conn = <<Conn, Conn>>]
      [] op.k = "copy" -> [y EXCEPT !.copy = Both(y.conn[op.c])]
      [] op.k = "tick" -> [y EXCEPT !.now = @ + op.d]
      [] OTHER -> y
See(y, log) == [conn |-> <<Both(y.conn[1]), Both(y.conn[2])>>, copy |-> y.copy, log |-> log]
XInit(cfg) == x = Fresh(cfg) /\ obs = See(x, <<>>)
XDo(op) == x' = Act(x, op)
           /\ obs' = See(x', IF op.k = "log"
                             THEN LET c == x.conn[op.c] IN <<<<c.tx.n, c.tx.b>>, <<c.rx.n, c.rx.b>>>>
                             ELSE <<>>)

(* All messages are counted, and none is left out of the rates. *)
Counters == {x.conn[1].tx, x.conn[1].rx, x.conn[2].tx, x.conn[2].rx}
Counted == \A i \in {1, 2} : x.conn[i].tx.n = x.conn[i].total[1] /\ x.conn[i].rx.n = x.conn[i].total[2]
Accounted == \A c \in Counters : Len(c.win) < Depth => Sum(c.win, 2) + c.acc[1] = c.n
                                                      /\ Sum(c.win, 3) + c.acc[2] = c.b
(* Nothing that wasn't seen can be lasting. *)
Bounded == \A c \in Counters : Sum(c.win, 1) <= x.now /\ Len(c.win) <= Depth
=============================================================================
