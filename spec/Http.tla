-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* HTTP connections (runtimepy.net.tcp.http): two sides of a byte stream,  *)
(* each of which makes requests and answers the other's.                   *)
(*                                                                         *)
(* What's on the wire is cut into units: two for a message's header, two   *)
(* more for its body.  Where the real bytes are cut isn't the              *)
(* specification's concern: a message is complete with its last unit.      *)
(*                                                                         *)
(* A message: [k: "req" | "resp" | "bad" | "blank", id, m (method), t      *)
(* (target), st (status), rs (reason), b (body, 0: none), n (note, a       *)
(* header's value), w (how it's answered: a message's st, rs, b, n; blk:   *)
(* the handler waits)].                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES x, obs

Sides == {1, 2}
Other(s) == 3 - s
NoHandler == 4
NoMsg == [k |-> "none"]
Quiet(y) == [y EXCEPT !.h = <<>>, !.r = <<>>, !.w = <<>>, !.log = <<>>]
See(y) == [h |-> y.h, r |-> y.r, w |-> y.w, log |-> y.log, alive |-> y.alive,
           wait |-> <<Len(y.q[1]), Len(y.q[2])>>,
           left |-> <<Len(y.wire[1]), Len(y.wire[2])>>]

(* cfg: [real: <<is side 1 ours, is side 2 ours>>]. *)
XFresh(cfg) ==
    [cfg |-> cfg, ids |-> 0, alive |-> cfg.real,
     q |-> <<<<>>, <<>>>>, sent |-> <<<<>>, <<>>>>,
     wire |-> <<<<>>, <<>>>>, inb |-> <<<<>>, <<>>>>, busy |-> <<NoMsg, NoMsg>>,
     h |-> <<>>, r |-> <<>>, w |-> <<>>, log |-> <<>>]

(* Side s puts a message on the wire. *)
Units(m) == IF m.k = "blank" THEN 1 ELSE IF m.b > 0 THEN 4 ELSE 2
Put(y, s, m) ==
    [y EXCEPT !.wire[s] = @ \o [i \in 1..Units(m) |-> [last |-> i = Units(m), m |-> m]],
              !.w = IF y.cfg.real[s] THEN Append(@, <<s, m.k, m.id, m.m, m.t, m.st, m.rs, m.b, m.n>>) ELSE @,
              !.log = IF ~y.cfg.real[s] THEN @
                      ELSE Append(@, <<s, "out", m.k, IF m.k = "req" THEN 10 ELSE IF m.st < 300 THEN 20 ELSE 40>>)]
Bare == [k |-> "", id |-> 0, m |-> 0, t |-> 0, st |-> 0, rs |-> 0, b |-> 0, n |-> 0, blk |-> FALSE, w |-> <<>>]
ReqMsg(o, id) ==
    [Bare EXCEPT !.k = "req", !.id = id, !.m = o.m, !.t = o.t, !.b = o.b, !.n = o.n, !.w = o.w, !.blk = o.blk]
Answer(m) ==
    IF m.m = NoHandler THEN [Bare EXCEPT !.k = "resp", !.st = 501, !.rs = 2]
    ELSE [Bare EXCEPT !.k = "resp", !.id = m.id, !.st = m.w[1], !.rs = m.w[2], !.b = m.w[3], !.n = m.w[4]]

(* One request at a time is on the wire; the others wait their turn. *)
Start(y, s) ==
    IF y.q[s] = <<>> \/ y.q[s][1].sent \/ ~y.alive[s] THEN y
    ELSE LET m == y.q[s][1].m IN
         Put([y EXCEPT !.q[s][1].sent = TRUE, !.sent[s] = Append(@, m.id)], s, m)

Told(s, id, m) == <<s, id, m.id, m.st, m.rs, m.b, m.n>>
(* Side s handles what has arrived completely, in order. *)
RECURSIVE Serve(_, _)
Serve(y, s) ==
    IF y.inb[s] = <<>> \/ y.busy[s] # NoMsg \/ ~y.alive[s] THEN y
    ELSE LET m == y.inb[s][1]
             z == [y EXCEPT !.inb[s] = Tail(@)]
             in == IF m.k \in {"bad", "blank"} THEN z
                   ELSE [z EXCEPT !.log = Append(@, <<s, "in", m.k, IF m.k = "req" THEN 10 ELSE IF m.st < 300 THEN 20 ELSE 40>>)]
         IN CASE m.k = "req" ->
                 LET g == IF m.m = NoHandler THEN in
                          ELSE [in EXCEPT !.h = Append(@, <<s, m.id, m.m, m.t, m.b, m.n>>)]
                 IN IF m.m # NoHandler /\ m.blk THEN [g EXCEPT !.busy[s] = m]
                    ELSE Serve(Put(g, s, Answer(m)), s)
              [] m.k = "resp" ->
                 LET id == y.sent[s][1]
                     g == [in EXCEPT !.sent[s] = Tail(@)]
                 IN IF id = 0 THEN Serve(g, s)
                    ELSE Serve([g EXCEPT !.r = Append(@, Told(s, id, m)), !.q[s] = Tail(@)], s)
              [] m.k = "blank" -> Serve(z, s)
              [] OTHER -> [z EXCEPT !.alive[s] = FALSE, !.inb[s] = <<>>]

(* What's over ends every request that waited for it. *)
Lost(s, q) == [i \in 1..Len(q) |-> <<s, q[i].m.id, 0, 0, 0, 0, 0>>]
Ended(y, s) ==
    IF y.alive[s] \/ y.q[s] = <<>> THEN y
    ELSE [y EXCEPT !.r = @ \o Lost(s, y.q[s]), !.q[s] = <<>>, !.sent[s] = <<>>]

MinN(a, b) == IF a < b THEN a ELSE b
LastOnes(us) == SelectSeq(us, LAMBDA u : u.last)
Deliver(y, s, n) ==   \* n units from side s
    LET k == MinN(n, Len(y.wire[s]))
        d == Other(s)
        full == LastOnes(SubSeq(y.wire[s], 1, k))
        z == [y EXCEPT !.wire[s] = SubSeq(@, k + 1, Len(@)),
                       !.inb[d] = @ \o [i \in 1..Len(full) |-> full[i].m]]
    IN Start(Ended(Serve(z, d), d), d)

Cancel(y, s, i) ==
    IF i > Len(y.q[s]) THEN y
    ELSE LET e == y.q[s][i]
             z == [y EXCEPT !.q[s] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                            !.sent[s] = IF ~e.sent THEN @ ELSE [j \in 1..Len(@) |-> IF @[j] = e.m.id THEN 0 ELSE @[j]]]
         IN Start(z, s)

Request(y, s, o) ==
    LET id == y.ids + 1
        z == [y EXCEPT !.ids = id]
    IN IF ~y.cfg.real[s] THEN Put(z, s, ReqMsg(o, id))
       ELSE IF ~y.alive[s] THEN [z EXCEPT !.r = Append(@, <<s, id, 0, 0, 0, 0, 0>>)]
       ELSE Start([z EXCEPT !.q[s] = Append(@, [m |-> ReqMsg(o, id), sent |-> FALSE])], s)

(* A peer that isn't ours answers the oldest request it has. *)
Reqs(q) == SelectSeq(q, LAMBDA m : m.k = "req")
Foreign(y, s, w) ==
    IF Reqs(y.inb[s]) = <<>> THEN y
    ELSE Put([y EXCEPT !.inb[s] = Tail(Reqs(@))], s,
             [Bare EXCEPT !.k = "resp", !.id = Reqs(y.inb[s])[1].id, !.st = w[1], !.rs = w[2], !.b = w[3], !.n = w[4]])
Junk(y, s, k) == IF y.cfg.real[s] THEN y ELSE Put(y, s, [Bare EXCEPT !.k = k])

Release(y, s) ==
    IF y.busy[s] = NoMsg THEN y
    ELSE LET m == y.busy[s] IN
         Start(Ended(Serve(Put([y EXCEPT !.busy[s] = NoMsg], s, Answer(m)), s), s), s)

(* The link is lost; later side 1 establishes it again. *)
Cut(y) ==
    LET z == [y EXCEPT !.alive = <<FALSE, FALSE>>, !.wire = <<<<>>, <<>>>>, !.inb = <<<<>>, <<>>>>,
                       !.busy = <<NoMsg, NoMsg>>, !.sent = <<<<>>, <<>>>>]
    IN Ended(Ended(z, 1), 2)
Again(y) == IF y.alive # <<FALSE, FALSE>> THEN y ELSE [Cut(y) EXCEPT !.alive = y.cfg.real]

Step(y, o) ==
    CASE o.k = "req" -> Request(y, o.s, o)
      [] o.k = "dlv" -> Deliver(y, o.s, o.n)
      [] o.k = "cancel" -> Cancel(y, o.s, o.i)
      [] o.k = "free" -> Release(y, o.s)
      [] o.k = "answer" -> IF y.cfg.real[o.s] THEN y ELSE Foreign(y, o.s, o.w)
      [] o.k = "junk" -> Junk(y, o.s, o.j)
      [] o.k = "cut" -> Cut(y)
      [] o.k = "again" -> Again(y)
XDo(o) == /\ x' = Step(Quiet(x), o)
          /\ obs' = See(x')
XInit(cfg) == x = XFresh(cfg) /\ obs = See(XFresh(cfg))

-----------------------------------------------------------------------------
(* What's wanted of every behaviour. *)
(* A response is given to the request it answers (or to none). *)
Paired == \A i \in 1..Len(x.r) : x.r[i][3] \in {0, x.r[i][2]}
(* At most one request per side is on the wire and wanted. *)
OneAtATime == \A s \in Sides :
    Cardinality({i \in 1..Len(x.q[s]) : x.q[s][i].sent}) <= 1
(* Nothing waits on a connection that has ended. *)
NoneStuck == \A s \in Sides : ~x.alive[s] => x.q[s] = <<>>
=============================================================================
