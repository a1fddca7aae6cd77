------------------------------- MODULE Telem --------------------------------
(***************************************************************************)
(* Telemetry of a structure: samples of all of its channels, with the time *)
(* and a counter, put into datagrams that hold as many as fit, and what    *)
(* the receiver's structure says after datagrams that arrive in any order, *)
(* more than once or not at all.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Header, Overhead
VARIABLES x, obs

Width(k) == CASE k \in {"u8", "i8", "bool"} -> 1
              [] k \in {"u16", "i16"} -> 2
              [] k \in {"u32", "i32", "f32"} -> 4
              [] k \in {"u64", "i64", "f64"} -> 8
              (* Bits share one byte; the first of them has it. *)
              [] k = "bits" -> 1
              [] OTHER -> 0
Size(kinds) == Header + FoldLeft(LAMBDA a, k : a + Width(k), 0, kinds)
(* What a channel makes of a number. *)
Fit(k, v) == CASE k \in {"bool", "flag"} -> v % 2
               [] k \in {"bits", "more"} -> v % 8
               [] k \in {"u8", "u16", "u32", "u64"} -> IF v < 0 THEN 0 - v ELSE v
               [] OTHER -> v
Fresh(cfg) ==
    [kinds |-> cfg.kinds, fits |-> (cfg.mtu - Overhead) \div Size(cfg.kinds), now |-> cfg.start,
     vals |-> [i \in 1..Len(cfg.kinds) |-> 0], at |-> cfg.start, seq |-> cfg.seq,
     buf |-> <<>>, wire |-> <<>>, taken |-> 0,
     got |-> [at |-> 0, seq |-> 0, vals |-> [i \in 1..Len(cfg.kinds) |-> 0]], news |-> <<>>]
Sample(y) == [at |-> y.at, seq |-> y.seq, vals |-> y.vals]
Poll(y) == [y EXCEPT !.at = y.now, !.seq = (@ + 1) % 65536]
Allowed(y, op) ==
    CASE op.k = "set" -> op.c \in DOMAIN y.vals
      [] op.k \in {"tick", "capture"} -> TRUE
      [] op.k = "deliver" -> op.i \in DOMAIN y.wire
      [] OTHER -> FALSE
Act(y0, op) ==
    LET y == [y0 EXCEPT !.news = <<>>] IN
    CASE op.k = "set" -> IF op.c \in DOMAIN y.vals THEN [y EXCEPT !.vals[op.c] = Fit(y.kinds[op.c], op.v)] ELSE y
      [] op.k = "tick" -> [y EXCEPT !.now = @ + op.d]
      [] op.k = "capture" ->
           LET z == IF op.sample THEN LET p == Poll(y) IN [p EXCEPT !.buf = Append(@, Sample(p)), !.taken = @ + 1] ELSE y
           IN IF z.buf # <<>> /\ (op.flush \/ Len(z.buf) = z.fits)
              THEN [z EXCEPT !.wire = Append(@, z.buf), !.buf = <<>>]
              ELSE z
      [] op.k = "deliver" ->
           IF op.i \in DOMAIN y.wire
           THEN [y EXCEPT !.got = Last(y.wire[op.i]), !.news = y.wire[op.i]]
           ELSE y
      [] OTHER -> y
Flat(s) == <<s.at, s.seq, s.vals>>
See(y) == [wire |-> [i \in DOMAIN y.wire |-> Len(y.wire[i]) * Size(y.kinds)],
           news |-> [i \in DOMAIN y.news |-> Flat(y.news[i])],
           got |-> Flat(y.got), own |-> Flat(Sample(y)), fits |-> y.fits]
XInit(cfg) == x = Fresh(cfg) /\ obs = See(x)
XDo(op) == x' = Act(x, op) /\ obs' = See(x')

(* Each sample is in one place, in order; no datagram is larger than allowed. *)
All == FoldLeft(LAMBDA a, f : a \o f, <<>>, x.wire) \o x.buf
Once == /\ Len(All) = x.taken
        /\ \A i \in 1..Len(All) - 1 : All[i + 1].seq = (All[i].seq + 1) % 65536 /\ All[i].at <= All[i + 1].at
Small == /\ \A i \in DOMAIN x.wire : Len(x.wire[i]) \in 1..x.fits
         /\ Len(x.buf) < x.fits
(* What's received was sampled. *)
True == x.got.at = 0 \/ \E i \in DOMAIN All : All[i] = x.got
=============================================================================
