------------------------------ MODULE Messaging ------------------------------
(***************************************************************************)
(* C04: JSON messaging between two peers.  Requests carry an identifier,   *)
(* replies carry the same one; log records ride along on any message.      *)
(*                                                                         *)
(* A message is a record; 0 means "key absent":                            *)
(*   id   1000*p+k : k-th identifier of peer p;  >= 9000 : somebody else's *)
(*   lb   loopback payload (1 is the empty object)                         *)
(*   poll 1 + loopback count of a poll                                     *)
(*   ch   payload for a handler registered with a pattern; chr its answer  *)
(*   meta 1        metadata                                                *)
(*   cc   1,2,3 channel command (valid, failing, no such environment)      *)
(*        11,12,13 the answers                                             *)
(*   bad  number of keys no handler is registered for                      *)
(*   ign  number of keys the answer reports as ignored (+10 for chr)        *)
(*   logs log records                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Peers == {1, 2}
Other(p) == 3 - p

VARIABLES inbox,    \* inbox[p]: messages on their way to p
          nreq,     \* nreq[p]: identifiers p has used
          waits,    \* every request ever made, in order
          now,
          staged,   \* staged[p]: log records staged explicitly
          listed,   \* listed[p]: log records captured by p's handler
          metaSeen, \* metaSeen[p]: whether p stored its peer's metadata
          obs
mvars == <<inbox, nreq, waits, now, staged, listed, metaSeen>>

None == [id |-> 0, lb |-> 0, poll |-> 0, ch |-> 0, chr |-> 0, meta |-> 0,
         cc |-> 0, bad |-> 0, ign |-> 0, logs |-> <<>>]

Flat(m) == <<m.id, m.lb, m.poll, m.ch, m.chr, m.meta, m.cc, m.bad, m.ign, m.logs>>

Owner(id) == id \div 1000
Own(p, id) == id # 0 /\ Owner(id) = p /\ id % 1000 <= nreq[p]

(* Index of the pending request of p with this identifier, or 0. *)
Pending(ws, id) ==
    LET s == {w \in 1..Len(ws) : ws[w].id = id /\ ws[w].state = "wait"}
    IN IF s = {} THEN 0 ELSE CHOOSE w \in s : TRUE

(* What handling m at p answers with. *)
Answer(seen, m) ==
    [None EXCEPT !.id = m.id,
                 !.lb = IF m.lb >= 2 THEN m.lb ELSE 0,
                 !.poll = IF m.poll > 1 THEN m.poll - 1 ELSE 0,
                 !.chr = m.ch,
                 !.meta = IF m.meta = 1 /\ ~seen THEN 1 ELSE 0,
                 !.cc = IF m.cc \in 1..3 THEN m.cc + 10 ELSE 0,
                 !.ign = m.bad + (IF m.chr # 0 THEN 10 ELSE 0)]

Calls(m) ==
    (IF m.poll > 0 THEN << <<"poll", 0>> >> ELSE <<>>)
    \o (IF m.ch > 0 THEN << <<"ch", m.ch>> >> ELSE <<>>)
    \o (IF m.cc = 1 THEN << <<"cc", 0>> >> ELSE <<>>)

Bare(m) == [m EXCEPT !.id = 0, !.logs = <<>>]

(* The value a request's caller gets for reply m. *)
Result(w, m) ==
    CASE w.api = "json" -> Flat(Bare(m))
      [] w.api = "loopback" -> <<Bare(m) = [None EXCEPT !.lb = w.req.lb] /\ w.req.lb >= 1>>
      [] w.api = "command" -> <<m.cc = 11>>
      [] w.api = "hs" -> <<Bare(m) = [None EXCEPT !.lb = 2]>>
      [] w.api = "hs2" -> <<TRUE>>

(* Processing state threaded through the handling of one or more messages  *)
(* at p: ws, nq, sg, ls, sn, out (sent), calls, logs (received), res.      *)
Hold(p) == [ws |-> waits, nq |-> nreq[p], sg |-> staged[p], ls |-> listed[p],
            sn |-> metaSeen[p], out |-> <<>>, calls |-> <<>>, logs |-> <<>>,
            res |-> <<>>]

(* Sending attaches pending log records. *)
Attach(h, m) == [h EXCEPT !.out = Append(h.out, [m EXCEPT !.logs = h.sg \o h.ls]),
                          !.sg = <<>>, !.ls = <<>>]

(* A reply that settles request number w. *)
Settle(p, h, w, m) ==
    LET wt == h.ws[w]
        h1 == [h EXCEPT !.ws[w].state = "done"]
        good == Result(wt, m) = <<TRUE>>
    IN IF wt.api = "hs" /\ good
       THEN LET h2 == [h1 EXCEPT !.nq = h1.nq + 1,
                                 !.ws = Append(h1.ws,
                        [p |-> p, id |-> 1000 * p + h1.nq + 1, state |-> "wait",
                         api |-> "hs2", until |-> now + 12, req |-> [None EXCEPT !.meta = 1],
                         w |-> wt.w])]
            IN Attach(h2, [None EXCEPT !.id = 1000 * p + h1.nq + 1, !.meta = 1])
       ELSE [h1 EXCEPT !.res = Append(h1.res, <<wt.w, Result(wt, m)>>)]

Handle(p, h, m) ==
    LET w == IF m.id # 0 THEN Pending(h.ws, m.id) ELSE 0
        ours == m.id # 0 /\ Owner(m.id) = p /\ m.id % 1000 <= h.nq
        ans == Answer(h.sn, m)
        speak == ~ours /\ ans # None
        h1 == [h EXCEPT !.calls = Append(h.calls, Calls(m)),
                        !.logs = h.logs \o m.logs,
                        !.sn = h.sn \/ m.meta = 1]
        h2 == IF speak THEN Attach(h1, ans) ELSE h1
    IN IF w # 0 /\ ours THEN Settle(p, h2, w, m) ELSE h2

RECURSIVE HandleAll(_, _, _)
HandleAll(p, h, ms) ==
    IF ms = <<>> THEN h ELSE HandleAll(p, Handle(p, h, Head(ms)), Tail(ms))

RECURSIVE FlatAll(_)
FlatAll(ms) == IF ms = <<>> THEN <<>> ELSE <<Flat(Head(ms))>> \o FlatAll(Tail(ms))

(* Outcomes are compared in the order the requests were made. *)
RECURSIVE InsertRes(_, _)
InsertRes(q, r) == IF q = <<>> THEN <<r>>
                   ELSE IF r[1] < Head(q)[1] THEN <<r>> \o q
                   ELSE <<Head(q)>> \o InsertRes(Tail(q), r)
RECURSIVE SortRes(_)
SortRes(q) == IF q = <<>> THEN <<>> ELSE InsertRes(SortRes(Tail(q)), Head(q))

Install(p, h, forward, taken) ==
    /\ waits' = h.ws
    /\ nreq' = [nreq EXCEPT ![p] = h.nq]
    /\ staged' = [staged EXCEPT ![p] = h.sg]
    /\ listed' = [listed EXCEPT ![p] = h.ls]
    /\ metaSeen' = [metaSeen EXCEPT ![p] = h.sn]
    /\ inbox' = LET a == [inbox EXCEPT ![p] = SubSeq(@, taken + 1, Len(@))]
                IN IF forward THEN [a EXCEPT ![Other(p)] = @ \o h.out] ELSE a
    /\ obs' = [out |-> FlatAll(h.out), calls |-> h.calls, logs |-> h.logs,
               res |-> SortRes(h.res)]
    /\ UNCHANGED now

(* p's caller makes a request (api) with content m, willing to wait. *)
Request(p, api, m, until) ==
    LET h == Hold(p)
        id == 1000 * p + h.nq + 1
        body == IF api = "hs" THEN [None EXCEPT !.lb = 2] ELSE m
        h1 == [h EXCEPT !.nq = h.nq + 1,
                        !.ws = Append(h.ws, [p |-> p, id |-> id, state |-> "wait",
                                             api |-> api, until |-> now + until,
                                             req |-> body,
                                             w |-> 1 + Len(SelectSeq(h.ws, LAMBDA x : x.api # "hs2"))])]
    IN Install(p, Attach(h1, [body EXCEPT !.id = id]), TRUE, 0)

Send(p, m) == Install(p, Attach(Hold(p), m), TRUE, 0)

Deliver(p, n) ==
    /\ n <= Len(inbox[p])
    /\ Install(p, HandleAll(p, Hold(p), SubSeq(inbox[p], 1, n)), TRUE, n)

(* A message from somebody else; answers go to that somebody. *)
Inject(p, m) == Install(p, HandleAll(p, Hold(p), <<m>>), FALSE, 0)

(* Text that isn't a JSON object is ignored. *)
Garbage(p, g) ==
    /\ obs' = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>, res |-> <<>>]
    /\ UNCHANGED mvars

(* The network delivers the next message to p twice. *)
Dup(p) ==
    /\ inbox[p] # <<>>
    /\ inbox' = [inbox EXCEPT ![p] = <<Head(@)>> \o @]
    /\ obs' = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>, res |-> <<>>]
    /\ UNCHANGED <<nreq, waits, now, staged, listed, metaSeen>>

Lose(p) ==
    /\ inbox[p] # <<>>
    /\ inbox' = [inbox EXCEPT ![p] = Tail(@)]
    /\ obs' = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>, res |-> <<>>]
    /\ UNCHANGED <<nreq, waits, now, staged, listed, metaSeen>>

Log(p, t, how) ==
    /\ IF how = "stage" THEN staged' = [staged EXCEPT ![p] = Append(@, t)] /\ UNCHANGED listed
       ELSE listed' = [listed EXCEPT ![p] = Append(@, t)] /\ UNCHANGED staged
    /\ obs' = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>, res |-> <<>>]
    /\ UNCHANGED <<inbox, nreq, waits, now, metaSeen>>

RECURSIVE Late(_, _)
Late(ws, t) == IF ws = <<>> THEN <<>>
               ELSE (IF Head(ws).state = "wait" /\ Head(ws).until <= t
                     THEN << <<Head(ws).w, <<"timeout">>>> >> ELSE <<>>)
                    \o Late(Tail(ws), t)
Tick(d) ==
    /\ now' = now + d
    /\ waits' = [w \in 1..Len(waits) |->
                  IF waits[w].state = "wait" /\ waits[w].until <= now + d
                  THEN [waits[w] EXCEPT !.state = "late"] ELSE waits[w]]
    /\ obs' = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>,
               res |-> SortRes(Late(waits, now + d))]
    /\ UNCHANGED <<inbox, nreq, staged, listed, metaSeen>>

Do(o) ==
    CASE o.k = "request" -> Request(o.p, o.api, o.m, o.until)
      [] o.k = "send" -> Send(o.p, o.m)
      [] o.k = "deliver" -> Deliver(o.p, o.n)
      [] o.k = "inject" -> Inject(o.p, o.m)
      [] o.k = "garbage" -> Garbage(o.p, o.g)
      [] o.k = "dup" -> Dup(o.p)
      [] o.k = "lose" -> Lose(o.p)
      [] o.k = "log" -> Log(o.p, o.t, o.how)
      [] o.k = "tick" -> Tick(o.d)
      [] OTHER -> FALSE

MsgInit ==
    /\ inbox = [p \in Peers |-> <<>>] /\ nreq = [p \in Peers |-> 0]
    /\ waits = <<>> /\ now = 0
    /\ staged = [p \in Peers |-> <<>>] /\ listed = [p \in Peers |-> <<>>]
    /\ metaSeen = [p \in Peers |-> FALSE]
    /\ obs = [out |-> <<>>, calls |-> <<>>, logs |-> <<>>, res |-> <<>>]
=============================================================================
