------------------------------ MODULE Connect -------------------------------
(***************************************************************************)
(* How connections come about: attempts, how long until the next and how   *)
(* many, which addresses are asked for, and what a connection that was     *)
(* lost starts over with.  And those that come in, while they're served.   *)
(* Addresses are numbers, 0 is none and Anywhere what's picked if nothing  *)
(* else is known.  Time is in tenths of a second.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Anywhere
VARIABLES x, obs

Default == [interval |-> 1, cap |-> 100, tries |-> 20]
Least(a, b) == IF a < b THEN a ELSE b
Pow2(n) == FoldLeft(LAMBDA a, i : Least(2 * a, 100000), 1, [i \in 1..n |-> i])

(* What's asked of the host: where to, and where from. *)
Connects(o) == o.kind = "tcp" \/ o.connect
Args(o) == IF Connects(o) THEN <<o.remote, o.local>>
           ELSE <<0, IF o.local = 0 THEN Anywhere ELSE o.local>>
None == [kind |-> "tcp", connect |-> TRUE, remote |-> 0, local |-> 0]
Fresh(cfg) ==
    [up |-> TRUE, now |-> 0, phase |-> "none", o |-> None, back |-> Default,
     n |-> 0, due |-> 0, restarts |-> 0, attempts |-> 0, made |-> <<>>,
     serving |-> FALSE, served |-> <<>>, gone |-> 0]
Going(y) == y.phase \in {"making", "again"}
Limit(y) == IF y.n >= y.back.tries THEN [y EXCEPT !.phase = IF @ = "making" THEN "failed" ELSE "lost"] ELSE y
(* One attempt. *)
Try(y) ==
    LET z == [y EXCEPT !.made = Append(@, Args(y.o)),
                       !.attempts = @ + (IF y.phase = "again" THEN 1 ELSE 0)]
    IN IF y.up
       THEN [z EXCEPT !.restarts = @ + (IF y.phase = "again" THEN 1 ELSE 0), !.phase = "up"]
       ELSE Limit([z EXCEPT !.n = @ + 1,
                            !.due = y.due + Least(Pow2(y.n) * y.back.interval, y.back.cap)])
RECURSIVE Pass(_, _)
Pass(y, till) ==
    IF Going(y) /\ y.due <= till THEN Pass(Try(y), till) ELSE [y EXCEPT !.now = till]
(* Without a delay the first one is at once. *)
Begin(y, phase, back) == Pass(Limit([y EXCEPT !.phase = phase, !.back = back, !.n = 0, !.due = y.now]), y.now)

Back(op) == IF op.back THEN [interval |-> op.interval, cap |-> op.cap, tries |-> op.tries] ELSE Default
Allowed(y, op) ==
    CASE op.k = "create" -> /\ ~Going(y)
                            /\ op.kind = "tcp" => op.remote > 0
                            /\ op.kind = "udp" => op.remote > 0 \/ op.local > 0
                            /\ (op.kind = "udp" /\ ~op.connect) \/ op.form \in {"given", "class"}
      [] op.k = "net" -> op.up # y.up
      [] op.k = "lost" -> y.phase = "up"
      [] op.k = "again" -> y.phase = "lost"
      [] op.k = "send" -> y.phase = "up"
      [] op.k = "tick" -> TRUE
      [] op.k = "serve" -> ~y.serving
      [] op.k \in {"accept", "close"} -> y.serving
      [] OTHER -> FALSE
Act(y0, op) ==
    LET y == [y0 EXCEPT !.made = <<>>] IN
    CASE op.k = "create" -> IF Going(y) THEN y ELSE
           Begin([y EXCEPT !.o = [kind |-> op.kind, connect |-> op.connect, remote |-> op.remote, local |-> op.local],
                           !.restarts = 0, !.attempts = 0], "making", Back(op))
      [] op.k = "net" -> [y EXCEPT !.up = op.up]
      [] op.k = "lost" -> IF y.phase = "up" THEN [y EXCEPT !.phase = "lost"] ELSE y
      [] op.k = "again" -> IF y.phase = "lost" THEN Begin(y, "again", Back(op)) ELSE y
      [] op.k = "tick" -> Pass(y, y.now + op.d)
      [] op.k = "serve" -> [y EXCEPT !.serving = TRUE, !.served = <<>>, !.gone = 0]
      [] op.k = "accept" -> [y EXCEPT !.served = Append(@, op.from)]
      [] op.k = "close" -> [y EXCEPT !.serving = FALSE, !.gone = Len(y.served)]
      [] OTHER -> y
There(y) == IF y.phase \in {"up", "lost", "again"}
            THEN <<y.o.remote, Args(y.o)[2]>>
            ELSE <<>>
See(y, sent) ==
    [phase |-> y.phase, made |-> y.made, there |-> There(y), counts |-> <<y.restarts, y.attempts>>,
     sent |-> sent, served |-> y.served, gone |-> y.gone, serving |-> y.serving]
XInit(cfg) == x = Fresh(cfg) /\ obs = See(x, <<>>)
XDo(op) == x' = Act(x, op)
           /\ obs' = See(x', IF op.k = "send" /\ x.phase = "up" THEN <<x.o.remote>> ELSE <<>>)

(* No more attempts than allowed, and each restart is one that worked. *)
Enough == Going(x) => x.n < x.back.tries /\ x.due > x.now /\ x.due - x.now <= x.back.cap
Counts == x.restarts <= x.attempts
(* Whatever it was made with, it's made with again. *)
Steady == \A i \in DOMAIN x.made : x.made[i] = Args(x.o)
=============================================================================
