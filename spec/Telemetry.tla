----------------------------- MODULE Telemetry -----------------------------
(***************************************************************************)
(* Channel-event telemetry: streams registered for the changes of channels *)
(* and bit-fields (runtimepy.channel.event, ChannelRegistry.registered,    *)
(* TelemetryChannelEnvironment) and a client that parses a stream of bytes *)
(* delivered in arbitrary pieces and applies the events.                   *)
(*                                                                         *)
(* Items come fields first: [cell, kind ("c" channel or "f" field), at,    *)
(* width].  A cell is the storage: a register for fields, a channel's      *)
(* value otherwise; Sizes gives a cell's size in bytes.  Times are         *)
(* milliseconds.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES t, obs
tvars == <<t>>
Head10 == 10     (* Bytes of an event's header. *)
Start == 1000

TFresh(items, sizes, streams) ==
    [items |-> items, sizes |-> sizes,
     v |-> [c \in 1..Len(sizes) |-> 0], at |-> [c \in 1..Len(sizes) |-> Start], now |-> Start,
     cbs |-> [c \in 1..Len(sizes) |-> <<>>],
     busy |-> [i \in 1..Len(items) |-> FALSE], prev |-> [i \in 1..Len(items) |-> 0],
     minp |-> [i \in 1..Len(items) |-> 0],
     out |-> [x \in 1..streams |-> <<>>], on |-> [x \in 1..streams |-> <<>>],
     flush |-> [x \in 1..streams |-> FALSE], fl |-> [x \in 1..streams |-> 0],
     msgs |-> 0, bytes |-> 0,
     (* The client of the first stream. *)
     pos |-> 0, parsed |-> 0, cv |-> [c \in 1..Len(sizes) |-> 0], last |-> <<>>, res |-> "ok"]

Size(x, i) == Head10 + x.sizes[x.items[i].cell]
(* An event, unless too soon after the last one. *)
Event(x, st, i, met, force) ==
    LET c == x.items[i].cell IN
    IF ~force /\ x.at[c] - x.prev[i] < x.minp[i] THEN x
    ELSE [x EXCEPT !.prev[i] = x.at[c], !.out[st] = Append(@, <<i, x.at[c], x.v[c]>>),
                   !.fl[st] = @ + (IF x.flush[st] THEN 1 ELSE 0),
                   !.msgs = @ + (IF met THEN 1 ELSE 0), !.bytes = @ + (IF met THEN Size(x, i) ELSE 0)]
RECURSIVE Notify(_, _, _)
Notify(x, c, k) ==
    IF k > Len(x.cbs[c]) THEN x
    ELSE LET b == x.cbs[c][k] IN Notify(Event(x, b.s, b.i, b.met, x.items[b.i].kind = "f"), c, k + 1)
Set(x, c, v, at) ==
    LET y == [x EXCEPT !.v[c] = v, !.at[c] = at, !.now = at] IN
    IF v = x.v[c] THEN y ELSE Notify(y, c, 1)

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Bits(v, at, width, w) == v - ((v \div P2(at)) % P2(width)) * P2(at) + w * P2(at)

Drop(x, st) ==
    LET mine(c) == SelectSeq(x.cbs[c], LAMBDA b : b.s # st)
        own == {x.on[st][k] : k \in 1..Len(x.on[st])}
    IN [x EXCEPT !.cbs = [c \in 1..Len(x.sizes) |-> mine(c)],
                 !.busy = [i \in 1..Len(x.items) |-> x.busy[i] /\ ~(i \in own /\ x.items[i].kind = "c")],
                 !.on[st] = <<>>]
(* Register items in order: a channel can only be streamed once at a time. *)
RECURSIVE Enter(_, _, _, _)
Enter(x, st, sel, met) ==
    IF sel = <<>> THEN [x EXCEPT !.res = "ok"]
    ELSE LET i == Head(sel)  c == x.items[i].cell IN
         IF x.busy[i] THEN [Drop(x, st) EXCEPT !.res = "refused"]
         ELSE LET y == Event([x EXCEPT !.prev[i] = IF x.items[i].kind = "c" THEN 0 ELSE @], st, i, met, FALSE)
              IN Enter([y EXCEPT !.cbs[c] = Append(@, [s |-> st, i |-> i, met |-> met]),
                                 !.busy[i] = x.items[i].kind = "c",
                                 !.on[st] = Append(@, i)], st, Tail(sel), met)

(* The client. *)
RECURSIVE Total(_, _, _)
Total(x, q, k) == IF k = 0 THEN 0 ELSE Total(x, q, k - 1) + Size(x, q[k][1])
RECURSIVE Whole(_, _, _)
Whole(x, q, n) == IF n = Len(q) \/ Total(x, q, n + 1) > x.pos THEN n ELSE Whole(x, q, n + 1)
RECURSIVE Apply(_, _)
Apply(x, evs) == IF evs = <<>> THEN x
                 ELSE Apply([x EXCEPT !.cv[x.items[Head(evs)[1]].cell] = Head(evs)[3]], Tail(evs))
Deliver(x, o) ==
    LET all == Total(x, x.out[1], Len(x.out[1]))
        y == [x EXCEPT !.pos = IF @ + o.n > all THEN all ELSE @ + o.n]
        w == Whole(y, y.out[1], y.parsed)
        n == IF o.take = 0 \/ y.parsed + o.take > w THEN w ELSE y.parsed + o.take
        evs == SubSeq(y.out[1], y.parsed + 1, n)
        z == [y EXCEPT !.parsed = n, !.last = evs]
    IN IF o.apply THEN Apply(z, evs) ELSE z

TStep(x0, o) ==
    LET x == [x0 EXCEPT !.last = <<>>, !.res = "ok"] IN
    CASE o.k = "reg" -> IF x.on[o.s] # <<>> THEN x
                        ELSE Enter([x EXCEPT !.flush[o.s] = o.flush], o.s, o.sel, o.met)
      (* Whether or not something was raised meanwhile. *)
      [] o.k \in {"unreg", "raise"} -> Drop(x, o.s)
      [] o.k = "set" -> Set(x, o.c, o.v, x.now + o.d)
      [] o.k = "bits" -> LET i == x.items[o.i] IN
                         Set(x, i.cell, Bits(x.v[i.cell], i.at, i.width, o.v), x.now + o.d)
      [] o.k = "minp" -> [x EXCEPT !.minp[o.i] = o.v]
      [] o.k = "deliver" -> Deliver(x, o)

TSeen(x) == [v |-> x.v, out |-> x.out, fl |-> x.fl, msgs |-> x.msgs, bytes |-> x.bytes,
             cv |-> x.cv, last |-> x.last, res |-> x.res,
             cbs |-> [c \in 1..Len(x.sizes) |-> Len(x.cbs[c])]]
TDo(o) == t' = TStep(t, o) /\ obs' = TSeen(t')

-----------------------------------------------------------------------------
Registered == \A c \in 1..Len(t.sizes) : \A k \in 1..Len(t.cbs[c]) :
                 LET b == t.cbs[c][k] IN \E n \in 1..Len(t.on[b.s]) : t.on[b.s][n] = b.i
BusyOnce == \A i \in 1..Len(t.items) : t.items[i].kind = "c" =>
              (t.busy[i] <=> \E st \in DOMAIN t.on : \E n \in 1..Len(t.on[st]) : t.on[st][n] = i)
(* A client with all of a stream (whose rate isn't limited) that was never *)
(* interrupted has the same values.                                        *)
Times == \A st \in DOMAIN t.out : \A k \in 1..(Len(t.out[st]) - 1) : t.out[st][k][2] <= t.now
InOrder == t.parsed <= Len(t.out[1])
=============================================================================
