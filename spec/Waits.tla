------------------------------- MODULE Waits -------------------------------
(***************************************************************************)
(* C02: waiting for, and sampling, a primitive while it is being updated. *)
(*                                                                         *)
(* Time is counted in half seconds: operations happen at even instants and *)
(* time limits expire at odd ones, so no two of them coincide.  Settle is  *)
(* the point where the event loop has run everything it can; a burst is a  *)
(* series of updates without Settle in between, i.e. updates the waiter's  *)
(* own task does not get to see one by one.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES scal,   \* scaling polynomial <<offset, scale>> or <<>>
          now, val, ts,
          w,      \* waiters
          s,      \* samplers
          obs
wvars == <<scal, now, val, ts, w, s>>

(* --- conditions --------------------------------------------------------- *)
Abs(x) == IF x < 0 THEN -x ELSE x
Scaled(v) == IF scal = <<>> THEN v
             ELSE IF Len(scal) = 1 THEN scal[1] ELSE scal[1] + scal[2] * v
Unscaled(v) == IF scal = <<>> THEN v
               ELSE IF Len(scal) = 1 THEN v - scal[1]
               ELSE (v - scal[1]) \div scal[2]   \* driven only when exact

Holds(c, v) ==
    IF c[1] = "close" THEN Abs(c[2] - Scaled(v)) <= c[3]
    ELSE LET x == Unscaled(c[2]) IN
         CASE c[1] = "EQUAL"                 -> x = v
           [] c[1] = "NOT_EQUAL"             -> x # v
           [] c[1] = "LESS_THAN"             -> x < v
           [] c[1] = "LESS_THAN_OR_EQUAL"    -> x <= v
           [] c[1] = "GREATER_THAN"          -> x > v
           [] c[1] = "GREATER_THAN_OR_EQUAL" -> x >= v

(* --- one waiter ---------------------------------------------------------- *)
Started(c, dl) ==
    IF Holds(c, val) THEN [c |-> c, dl |-> dl, st |-> "SUCCESS",
                           seen |-> "SUCCESS", at |-> now]
    ELSE IF dl <= now THEN [c |-> c, dl |-> dl, st |-> "TIMEOUT",
                            seen |-> "TIMEOUT", at |-> now]
    ELSE [c |-> c, dl |-> dl, st |-> "pending", seen |-> "TIMEOUT", at |-> -1]

(* An update that changed the value: success is final, failure is not. *)
Noticed(r, v) ==
    IF r.st # "pending" \/ r.seen = "SUCCESS" THEN r
    ELSE [r EXCEPT !.seen = IF Holds(r.c, v) THEN "SUCCESS" ELSE "FAIL"]

SettleW(r, t) ==
    IF r.st = "pending" /\ r.seen = "SUCCESS"
    THEN [r EXCEPT !.st = "SUCCESS", !.at = t] ELSE r

ExpireW(r, t) ==
    IF r.st = "pending" /\ r.dl <= t
    THEN [r EXCEPT !.st = r.seen, !.at = r.dl] ELSE r

(* --- one sampler --------------------------------------------------------- *)
Full(r) == r.cnt > 0 /\ r.n >= r.cnt

RECURSIVE Consume(_)
Consume(r) ==
    IF r.st # "active" \/ r.q = <<>> \/ (r.slow /\ r.permits = 0) THEN r
    ELSE Consume([r EXCEPT !.out = Append(@, Head(r.q)), !.q = Tail(r.q),
                           !.permits = IF r.slow THEN @ - 1 ELSE @])

(* After consuming what it may, a sampler that can never yield again ends  *)
(* (a slow one only once it asks for the next sample).                     *)
SettleS(r, t) ==
    LET c == Consume(r) IN
    IF c.st = "active" /\ c.q = <<>> /\ (Full(c) \/ c.dl <= t)
       /\ (~c.slow \/ c.permits > 0)
    THEN [c EXCEPT !.st = "ended"] ELSE c

Sampled(r, v, stamp) ==
    IF r.st = "active" /\ ~Full(r)
    THEN [r EXCEPT !.n = @ + 1, !.q = Append(@, <<v, stamp>>)] ELSE r

(* --- observation --------------------------------------------------------- *)
Registered(ws, ss) ==
    IF \E n \in 1..Len(ss) : ss[n].slow /\ ss[n].st = "active" THEN -1
    ELSE Len(SelectSeq(ws, LAMBDA r : r.st = "pending"))
         + Len(SelectSeq(ss, LAMBDA r : r.st = "active"))

Observe(ws, ss) ==
    [waiters  |-> [n \in 1..Len(ws) |-> <<ws[n].st, ws[n].at>>],
     samplers |-> [n \in 1..Len(ss) |-> <<ss[n].st, ss[n].out>>],
     callbacks |-> Registered(ws, ss)]

SettleAll(ws, ss, t) ==
    /\ w' = [n \in 1..Len(ws) |-> SettleW(ws[n], t)]
    /\ s' = [n \in 1..Len(ss) |-> SettleS(ss[n], t)]

(* --- actions ------------------------------------------------------------- *)
StartWait(c, dl) ==
    /\ SettleAll(Append(w, Started(c, dl)), s, now)
    /\ obs' = Observe(w', s') /\ UNCHANGED <<scal, now, val, ts>>

StartSample(dl, cnt, current, slow) ==
    /\ SettleAll(w, Append(s,
          [dl |-> dl, cnt |-> cnt, slow |-> slow, permits |-> IF slow THEN 1 ELSE 0,
           st |-> "active", out |-> <<>>,
           n |-> IF current THEN 1 ELSE 0,
           q |-> IF current THEN <<<<val, ts>>>> ELSE <<>>]), now)
    /\ obs' = Observe(w', s') /\ UNCHANGED <<scal, now, val, ts>>

(* vs: the values of one burst; stamps count up from the given stamp. *)
RECURSIVE Apply(_, _, _, _, _)
Apply(vs, v, stamp, ws, ss) ==
    IF vs = <<>> THEN [v |-> v, ts |-> stamp, ws |-> ws, ss |-> ss]
    ELSE LET n == Head(vs) IN
         IF n = v THEN Apply(Tail(vs), v, stamp + 1, ws, ss)
         ELSE Apply(Tail(vs), n, stamp + 1,
                    [k \in 1..Len(ws) |-> Noticed(ws[k], n)],
                    [k \in 1..Len(ss) |-> Sampled(ss[k], n, stamp + 1)])

Burst(vs) ==
    LET a == Apply(vs, val, ts, w, s) IN
    /\ val' = a.v /\ ts' = a.ts
    /\ SettleAll(a.ws, a.ss, now)
    /\ obs' = Observe(w', s') /\ UNCHANGED <<scal, now>>

Cancel(n) ==
    /\ w' = [w EXCEPT ![n] = IF @.st = "pending"
                             THEN [@ EXCEPT !.st = "cancelled", !.at = now]
                             ELSE @]
    /\ obs' = Observe(w', s) /\ UNCHANGED <<scal, now, val, ts, s>>

Close(n) ==
    /\ s' = [s EXCEPT ![n] = IF @.st = "active" THEN [@ EXCEPT !.st = "closed"]
                             ELSE @]
    /\ obs' = Observe(w, s') /\ UNCHANGED <<scal, now, val, ts, w>>

Permit(n) ==
    /\ s' = [s EXCEPT ![n] = IF @.st = "active"
             THEN SettleS([@ EXCEPT !.permits = @ + 1], now) ELSE @]
    /\ obs' = Observe(w, s') /\ UNCHANGED <<scal, now, val, ts, w>>

Advance(d) ==
    /\ now' = now + d
    /\ w' = [n \in 1..Len(w) |-> ExpireW(w[n], now + d)]
    /\ s' = [n \in 1..Len(s) |-> SettleS(s[n], now + d)]
    /\ obs' = Observe(w', s') /\ UNCHANGED <<scal, val, ts>>

Do(o) ==
    CASE o.k = "wait"    -> StartWait(o.c, now + o.t)
      [] o.k = "sample"  -> StartSample(now + o.t, o.cnt, o.current, o.slow)
      [] o.k = "burst"   -> Burst(o.vs)
      [] o.k = "cancel"  -> Cancel(o.n)
      [] o.k = "close"   -> Close(o.n)
      [] o.k = "permit"  -> Permit(o.n)
      [] o.k = "advance" -> Advance(o.d)
      [] OTHER           -> FALSE

InitWith(sc, v) ==
    /\ scal = sc /\ now = 0 /\ val = v /\ ts = 0 /\ w = <<>> /\ s = <<>>
    /\ obs = Observe(<<>>, <<>>)

-----------------------------------------------------------------------------
NoLateWait == \A n \in 1..Len(w) : w[n].st = "pending" => now < w[n].dl
NoMissedSuccess == \A n \in 1..Len(w) :
    w[n].st = "pending" => ~Holds(w[n].c, val)
CountBound == \A n \in 1..Len(s) :
    s[n].cnt > 0 => Len(s[n].out) + Len(s[n].q) <= s[n].cnt
StrictlyNewer == \A n \in 1..Len(s) : \A a, b \in 1..Len(s[n].out) :
    a < b => s[n].out[a][2] < s[n].out[b][2]
(* A result, once reported, never changes. *)
Final == \A n \in 1..Len(w) : w[n].st # "pending" => w'[n] = w[n]
=============================================================================
