-------------------------------- MODULE Tftp --------------------------------
(***************************************************************************)
(* TFTP (runtimepy.net.udp.tftp): a client and a server exchange files     *)
(* over a network that loses, duplicates and reorders messages and where   *)
(* others may send too.                                                    *)
(*                                                                         *)
(* Times are in hundredths of a second.  A block of data is a number,      *)
(* 100 * file + 10 * block + (2: a full block, 1: a shorter one); 0 is an  *)
(* empty one.  A file's content is its blocks that aren't empty; <<-1>>    *)
(* stands for no file, <<-2>> for something that can't be opened.          *)
(*                                                                         *)
(* A message is <<what, number, block>>: 1 read request (of a name), 2     *)
(* write request, 3 data, 4 acknowledgement, 5 error (its code).           *)
(* In flight it's [m, port, tag]: the server's port it's to or from, and   *)
(* the client's operation it belongs to (which nobody can see).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES x, obs

Full(b) == b > 0 /\ b % 10 = 2
Blocks(c) == IF c = <<>> \/ Full(c[Len(c)]) THEN Append(c, 0) ELSE c
Put(c, b) == IF b = 0 THEN c ELSE Append(c, b)
None == <<-1>>
Dir == <<-2>>

(* cfg: [p (period), t (timeout), tid (the server's replies come from      *)
(* another port), src (files to write), fs (the server's files)].          *)
XFresh(cfg) ==
    [cfg |-> cfg, now |-> 0, fs |-> cfg.fs, ids |-> 0,
     c2s |-> <<>>, s2c |-> <<>>, outc |-> <<>>, outs |-> <<>>, errs |-> <<>>, res |-> <<>>, quiet |-> FALSE,
     c |-> [ph |-> "idle", q |-> <<>>, idx |-> 0, nxt |-> 0, dl |-> 0, blks |-> <<>>, got |-> <<>>, bg |-> <<>>,
            port |-> 0, known |-> {0}, fb |-> FALSE, fa |-> FALSE, awb |-> {}, stale |-> FALSE, had |-> {}],
     s |-> [ph |-> "idle", q |-> <<>>, idx |-> 0, nxt |-> 0, dl |-> 0, blks |-> <<>>],
     dst |-> <<None, None>>, wrong |-> FALSE, lost |-> FALSE]

(* Sending. *)
Send(y, m, port) ==
    [y EXCEPT !.outc = Append(@, <<m[1], m[2], m[3], port>>),
              !.c2s = IF port > 1 THEN @ ELSE Append(@, [m |-> m, port |-> port, tag |-> IF y.c.q = <<>> THEN 0 ELSE y.c.q[1].id])]
Reply(y, m, tag) ==
    [y EXCEPT !.outs = Append(@, <<m[1], m[2], m[3], y.cfg.tid>>),
              !.s2c = Append(@, [m |-> m, port |-> y.cfg.tid, tag |-> tag])]
Again(y) == y.now + y.cfg.p
Until(y) == y.now + y.cfg.t

-----------------------------------------------------------------------------
(* The server: one transfer at a time, others wait. *)
SEmit(y) ==
    LET s == y.s IN
    CASE s.ph = "serve" -> Reply(y, <<3, s.idx, s.blks[s.idx]>>, s.q[1].tag)
      [] s.ph = "ing" -> Reply(y, <<4, s.idx - 1, 0>>, s.q[1].tag)
      [] s.ph = "dally" -> Reply(y, <<4, s.idx, 0>>, s.q[1].tag)
      [] OTHER -> y
SEnter(y, ph, idx) ==
    LET d == ph = "dally"
    IN SEmit([y EXCEPT !.s.ph = ph, !.s.idx = idx, !.s.nxt = y.now + (IF d THEN 5 ELSE y.cfg.p),
                       !.s.dl = y.now + (IF d THEN 25 ELSE y.cfg.t)])
SStart(y) ==
    IF y.s.q = <<>> THEN y
    ELSE LET r == y.s.q[1] IN
         IF r.k = "read" THEN SEnter([y EXCEPT !.s.blks = Blocks(y.fs[r.n])], "serve", 1)
         ELSE SEnter([y EXCEPT !.fs[r.n] = <<>>], "ing", 1)
SEnd(y) == SStart([y EXCEPT !.s.ph = "idle", !.s.q = Tail(@)])
(* A request that's being serviced, or will be, isn't serviced again. *)
SAsk(y, k, n, tag) ==
    IF \E i \in 1..Len(y.s.q) : y.s.q[i].k = k /\ y.s.q[i].n = n THEN y
    ELSE LET z == [y EXCEPT !.s.q = Append(@, [k |-> k, n |-> n, tag |-> tag]),
                            !.fs[n] = IF @ = None THEN <<>> ELSE @]
         IN IF y.s.ph = "idle" THEN SStart(z) ELSE z
SGet(y, e) ==
    LET m == e.m s == y.s IN
    CASE m[1] = 1 -> IF y.fs[m[2]] \in {None, Dir} THEN Reply(y, <<5, 1, 0>>, 0) ELSE SAsk(y, "read", m[2], e.tag)
      [] m[1] = 2 -> IF y.fs[m[2]] = Dir THEN Reply(y, <<5, 2, 0>>, 0) ELSE SAsk(y, "write", m[2], e.tag)
      [] m[1] = 3 -> IF s.ph = "ing" /\ m[2] = s.idx
                     THEN LET z == [y EXCEPT !.fs[s.q[1].n] = Put(@, m[3])] IN
                          IF Full(m[3]) THEN SEnter(z, "ing", s.idx + 1) ELSE SEnter(z, "dally", s.idx)
                     ELSE Reply(y, <<5, 5, 0>>, 0)
      [] m[1] = 4 -> IF s.ph = "serve" /\ m[2] = s.idx
                     THEN IF s.idx = Len(s.blks) THEN SEnd(y) ELSE SEnter(y, "serve", s.idx + 1)
                     ELSE y
      [] m[1] = 5 -> [y EXCEPT !.errs = Append(@, <<2, m[2]>>)]

-----------------------------------------------------------------------------
(* The client: reads and writes one after the other. *)
CEmit(y) ==
    LET c == y.c IN
    CASE c.ph = "rrq" -> Send(y, <<1, c.q[1].n, 0>>, 0)
      [] c.ph = "wrq" -> Send(y, <<2, c.q[1].n, 0>>, 0)
      [] c.ph = "rd" -> Send(y, <<4, c.idx - 1, 0>>, c.port)
      [] c.ph = "wd" -> Send(y, <<3, c.idx, c.blks[c.idx]>>, c.port)
      [] OTHER -> y
CEnter(y, ph, idx) ==
    CEmit([y EXCEPT !.c.ph = ph, !.c.idx = idx, !.c.nxt = Again(y), !.c.dl = Until(y),
                    !.c.awb = IF ph \in {"rrq", "rd"} THEN @ \cup {idx} ELSE @])
CStart(y) ==
    IF y.c.q = <<>> THEN y
    ELSE LET o == y.c.q[1] IN
         IF o.k = "read"
         THEN CEnter([y EXCEPT !.c.fb = TRUE, !.c.got = <<>>, !.c.stale = FALSE, !.c.had = {y.fs[o.n]}], "rrq", 1)
         ELSE CEnter([y EXCEPT !.c.fa = TRUE, !.c.blks = Blocks(y.cfg.src[o.f]), !.c.stale = FALSE, !.c.had = {y.fs[o.n]}], "wrq", 0)
(* The end of an operation: its number, its outcome and what a read wrote. *)
CEnd(y, ok) ==
    LET o == y.c.q[1]
        is == IF o.k = "write" THEN y.cfg.src[o.f] ELSE y.c.got
        z == [y EXCEPT !.c.ph = "idle", !.c.q = Tail(@),
                       !.wrong = @ \/ (ok /\ ~y.c.stale /\ is \notin y.c.had \cup {y.fs[o.n]})]
        again == [k |-> "read", n |-> o.n, f |-> o.f, ver |-> TRUE, d |-> 0, id |-> o.id]
    IN CStart(
       IF o.k = "write" /\ ok /\ o.ver THEN [z EXCEPT !.c.q = Append(@, again)]
       ELSE IF o.k = "write" THEN [z EXCEPT !.res = Append(@, <<o.id, 0, IF ok THEN 1 ELSE 0>>)]
       ELSE IF o.ver THEN [z EXCEPT !.res = Append(@, <<o.id, 0, IF ok /\ y.c.got = y.cfg.src[o.f] THEN 1 ELSE 0>>)]
       ELSE LET w == [z EXCEPT !.dst[o.d] = IF y.c.ph = "rrq" THEN @ ELSE y.c.got]
            IN [w EXCEPT !.res = Append(@, <<o.id, 1, IF ok THEN 1 ELSE 0>> \o w.dst[o.d]),
                         !.lost = @ \/ (ok /\ 911 \notin {y.c.got[i] : i \in 1..Len(y.c.got)} /\ y.c.got \notin y.c.had \cup {y.fs[o.n]})])
(* A block that's waited for.  The last one is acknowledged for a while,   *)
(* in the background.                                                      *)
CBlock(y, b, tag) ==
    LET z == [y EXCEPT !.c.got = Put(@, b), !.c.awb = @ \ {y.c.idx}, !.c.stale = @ \/ tag # y.c.q[1].id] IN
    IF Full(b) THEN CEnter(z, "rd", y.c.idx + 1)
    ELSE Send([z EXCEPT !.c.ph = "rs", !.c.nxt = y.now + 1, !.c.dl = y.now + 1,
                        !.c.bg = Append(@, [nxt |-> Again(y), dl |-> Until(y), b |-> y.c.idx])],
              <<4, y.c.idx, 0>>, y.c.port)
(* The first answer may come from another port of the server, which is     *)
(* then used.                                                              *)
Main(y, port) == port \in y.c.known
CData(y, b, ch, tag) ==
    IF b \notin y.c.awb THEN Send(y, <<5, 5, 0>>, y.c.port)
    ELSE IF y.c.ph \in {"rrq", "rd"} /\ b = y.c.idx THEN CBlock(y, ch, tag)
    ELSE [y EXCEPT !.c.awb = @ \ {b}]
CAck(y, b, tag) ==
    LET z == [y EXCEPT !.c.stale = @ \/ tag # y.c.q[1].id] IN
    CASE y.c.ph = "wrq" /\ b = 0 -> CEnter(z, "wd", 1)
      [] y.c.ph = "wd" /\ b = y.c.idx ->
             IF b = Len(y.c.blks) THEN CEnd(z, TRUE) ELSE CEnter(z, "wd", b + 1)
      [] OTHER -> y
AdoptTo(y, port) ==
    IF port \in y.c.known THEN y ELSE [y EXCEPT !.c.port = port, !.c.known = @ \cup {port}]
CGet(y, e) ==
    LET m == e.m IN
    CASE m[1] = 3 -> LET f == m[2] = 1 /\ y.c.fb /\ e.port # 3
                         z == IF f THEN AdoptTo([y EXCEPT !.c.fb = FALSE], e.port) ELSE y
                     IN IF Main(z, e.port) THEN CData(z, m[2], m[3], e.tag) ELSE Send(z, <<5, 5, 0>>, e.port)
      [] m[1] = 4 -> LET f == m[2] = 0 /\ y.c.fa /\ e.port # 3
                         z == IF f THEN AdoptTo([y EXCEPT !.c.fa = FALSE], e.port) ELSE y
                     IN IF Main(z, e.port) THEN CAck(z, m[2], e.tag) ELSE z
      [] m[1] = 5 -> [y EXCEPT !.errs = Append(@, <<1, m[2]>>)]

-----------------------------------------------------------------------------
(* Time passes: what's repeated is, until its time is up. *)
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
Timers(y) ==
    (IF y.c.ph = "idle" THEN {} ELSE {y.c.nxt, y.c.dl})
    \cup (IF y.s.ph = "idle" THEN {} ELSE {y.s.nxt, y.s.dl})
    \cup UNION {{y.c.bg[i].nxt, y.c.bg[i].dl} : i \in 1..Len(y.c.bg)}
CTime(y) ==
    IF y.c.ph = "idle" THEN y
    ELSE IF y.c.dl = y.now
    THEN CEnd(IF y.c.ph = "rrq" THEN [y EXCEPT !.c.awb = @ \ {1}] ELSE y, y.c.ph = "rs")
    ELSE IF y.c.nxt = y.now THEN CEmit([y EXCEPT !.c.nxt = Again(y)]) ELSE y
STime(y) ==
    IF y.s.ph = "idle" THEN y
    ELSE IF y.s.dl = y.now THEN SEnd(y)
    ELSE IF y.s.nxt = y.now THEN SEmit([y EXCEPT !.s.nxt = y.now + (IF y.s.ph = "dally" THEN 5 ELSE y.cfg.p)])
    ELSE y
RECURSIVE Bg(_, _)
Bg(y, i) ==
    IF i > Len(y.c.bg) THEN [y EXCEPT !.c.bg = SelectSeq(@, LAMBDA g : g.dl > y.now)]
    ELSE LET g == y.c.bg[i] IN
         IF g.dl > y.now /\ g.nxt = y.now
         THEN Bg(Send([y EXCEPT !.c.bg[i].nxt = Again(y)], <<4, g.b, 0>>, y.c.port), i + 1)
         ELSE Bg(y, i + 1)
Quieted(y) == IF y.quiet THEN [y EXCEPT !.c2s = <<>>, !.s2c = <<>>, !.outc = <<>>, !.outs = <<>>] ELSE y
RECURSIVE Pass(_, _)
Pass(y, to) ==
    LET z == Quieted(y) IN
    IF Timers(z) = {} \/ MinOf(Timers(z)) > to THEN [z EXCEPT !.now = to]
    ELSE LET at == [z EXCEPT !.now = MinOf(Timers(z))] IN Pass(Bg(STime(CTime(at)), 1), to)

-----------------------------------------------------------------------------
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
(* What somebody else sends, from another port of the server's host (2) or *)
(* another host (3), to the server ("c2s") or the client.                  *)
Alien(y, o) ==
    IF o.dir = "c2s"
    THEN CASE o.m = 0 -> [y EXCEPT !.outs = Append(@, <<5, 4, 0, o.p>>)]         \* An unknown opcode.
           [] o.m = 3 -> [y EXCEPT !.outs = Append(@, <<5, 5, 0, o.p>>)]         \* Data.
           [] OTHER -> y                                                       \* Acknowledgements, garbage.
    ELSE CASE o.m = 0 -> Send(y, <<5, 4, 0>>, o.p)
           [] o.m = 3 -> CGet(y, [m |-> <<3, o.b, 911>>, port |-> o.p, tag |-> 0])
           [] o.m = 4 -> CGet(y, [m |-> <<4, o.b, 0>>, port |-> o.p, tag |-> 0])
           [] OTHER -> y

Op(y, o) ==
    CASE o.k \in {"read", "write"} ->
             LET z == [y EXCEPT !.ids = @ + 1,
                                !.c.q = Append(@, [k |-> o.k, n |-> o.n, f |-> o.f, ver |-> o.ver, d |-> o.d, id |-> y.ids + 1])]
             IN IF y.c.ph = "idle" THEN CStart(z) ELSE z
      [] o.k = "dlv" -> IF o.dir = "c2s"
                        THEN SGet(IF o.dup THEN y ELSE [y EXCEPT !.c2s = Without(@, o.i)], y.c2s[o.i])
                        ELSE CGet(IF o.dup THEN y ELSE [y EXCEPT !.s2c = Without(@, o.i)], y.s2c[o.i])
      [] o.k = "drop" -> IF o.dir = "c2s" THEN [y EXCEPT !.c2s = Without(@, o.i)]
                         ELSE [y EXCEPT !.s2c = Without(@, o.i)]
      [] o.k = "wait" -> Pass(y, y.now + o.d)
      [] o.k = "alien" -> Alien(y, o)
      (* Every message is lost from now on, until nothing happens any more. *)
      [] o.k = "quiet" -> [Quieted(Pass([y EXCEPT !.quiet = TRUE], y.now + 6000)) EXCEPT !.quiet = FALSE]

(* What was sent meanwhile has an order of its own. *)
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Key(e) == e.m \o <<e.port>>
Sorted(out) == SortSeq(out, LAMBDA a, b : Less(a, b))
Tidy(net, n) ==     \* The first n were there before.
    SubSeq(net, 1, n) \o SortSeq(SubSeq(net, n + 1, Len(net)), LAMBDA a, b : Less(Key(a), Key(b)))
Kept(y, o, dir) ==
    LET n == IF dir = "c2s" THEN Len(y.c2s) ELSE Len(y.s2c) IN
    IF (o.k = "drop" \/ (o.k = "dlv" /\ ~o.dup)) /\ o.dir = dir THEN n - 1 ELSE IF o.k = "quiet" THEN 0 ELSE n
XStep(y, o) ==
    LET z == Op([y EXCEPT !.outc = <<>>, !.outs = <<>>, !.errs = <<>>, !.res = <<>>, !.wrong = FALSE, !.lost = FALSE], o)
    IN [z EXCEPT !.c.had = IF z.c.q = <<>> THEN {} ELSE @ \cup {z.fs[z.c.q[1].n]},
                  !.c2s = Tidy(@, Kept(y, o, "c2s")), !.s2c = Tidy(@, Kept(y, o, "s2c"))]
XSeen(y, o) ==
    [outc |-> Sorted(y.outc), outs |-> Sorted(y.outs), errs |-> y.errs, res |-> y.res,
     nc |-> Len(y.c2s), ns |-> Len(y.s2c), fs |-> IF o.k = "quiet" THEN y.fs ELSE <<>>]
XInit(cfg) == x = XFresh(cfg) /\ obs = XSeen(x, [k |-> ""])
XDo(o) == x' = XStep(x, o) /\ obs' = XSeen(x', o)

-----------------------------------------------------------------------------
(* A transfer that succeeded moved the file as it was at some time of the  *)
(* transfer, unless it took a message of an earlier transfer (or of        *)
(* somebody else) for one of its own.                                      *)
Right == ~x'.wrong
=============================================================================
