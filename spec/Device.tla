------------------------------- MODULE Device -------------------------------
(***************************************************************************)
(* Talking to devices.  Telnet: what each byte of a stream is, wherever    *)
(* the stream is cut: text, a signal of the virtual terminal, part of a    *)
(* command or of an option.  SCPI: questions asked one at a time, each     *)
(* answered by the first line that comes after it, or not in time.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
VARIABLES x, obs

(* ------------------------------- telnet -------------------------------- *)
Iac == 255
Verbs == 251..254
Commands == 240..250
Signals == {0} \cup 7..13
(* Line feed, carriage return and tab are text, too. *)
Printed == {10, 13, 9}
(* The first byte of a character says how many follow. *)
Follow(b) == IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE 0
(* What isn't a character is shown as a character that says so. *)
Unknown == <<239, 191, 189>>

Say(t, b) ==
    IF b = Iac THEN [t EXCEPT !.text = @ \o Unknown, !.raw = Append(@, b)]
    ELSE LET part == Append(t.part, b)
             left == IF t.part = <<>> THEN Follow(b) ELSE t.left - 1
         IN IF left = 0 THEN [t EXCEPT !.text = @ \o part, !.part = <<>>, !.left = 0, !.raw = Append(@, b)]
            ELSE [t EXCEPT !.part = part, !.left = left, !.raw = Append(@, b)]
Byte(t, b) ==
    CASE t.mode = "option" -> [t EXCEPT !.mode = "text", !.signs = Append(@, <<"option", t.verb, b>>)]
      [] t.mode = "iac" ->
           IF b \in Verbs THEN [t EXCEPT !.mode = "option", !.verb = b]
           ELSE LET u == [t EXCEPT !.mode = "text"] IN
                IF b = Iac THEN Say(u, b)
                ELSE IF b \in Commands THEN [u EXCEPT !.signs = Append(@, <<"command", b>>), !.alive = @ /\ b # 244]
                ELSE u
      [] b = Iac -> [t EXCEPT !.mode = "iac"]
      [] b \in Signals /\ b \notin Printed -> [t EXCEPT !.signs = Append(@, <<"signal", b>>)]
      [] OTHER -> Say(t, b)
Piece(t, bytes) == FoldLeft(Byte, [t EXCEPT !.text = <<>>, !.signs = <<>>, !.raw = <<>>], bytes)

(* -------------------------------- SCPI --------------------------------- *)
(* asks: waiting for their turn; the first is being asked, until at. *)
Begin(y) ==
    IF y.asks = <<>> \/ y.at >= 0 THEN y
    ELSE LET a == y.asks[1] IN [y EXCEPT !.at = y.now + a.limit, !.sent = Append(@, <<a.id, a.query>>)]
End(y, got) == [y EXCEPT !.done = Append(@, <<y.asks[1].id, got>>), !.asks = Tail(@), !.at = 0 - 1]
RECURSIVE Run(_)
Run(y) ==
    LET z == Begin(y) IN
    IF z.asks # <<>> /\ ~z.asks[1].waits THEN Run(End(z, "")) ELSE z
RECURSIVE Pass(_, _)
(* Until a time, whoever runs out of it first. *)
Pass(y, till) ==
    IF y.at >= 0 /\ y.at <= till
    THEN LET z == End([y EXCEPT !.now = y.at], "")
             first == y.asks[1].id = 0
         IN Pass(Run([z EXCEPT !.alive = @ /\ ~first, !.ready = @ \/ first]), till)
    ELSE [y EXCEPT !.now = till]
Name(n) == "r" \o ToString(n)
Lines(y, op) == [y EXCEPT !.count = @ + op.n]
Heard(y, op) ==
    IF op.n > 0 /\ y.at >= 0
    THEN Run([End(y, Name(y.count + 1)) EXCEPT !.count = @ + op.n, !.ready = @ \/ y.asks[1].id = 0])
    ELSE Lines(y, op)
Cancel(y, id) ==
    IF \A i \in DOMAIN y.asks : y.asks[i].id # id THEN y
    ELSE IF y.asks[1].id = id THEN Run(End(y, "cancelled"))
    ELSE [y EXCEPT !.asks = SelectSeq(@, LAMBDA a : a.id # id), !.done = Append(@, <<id, "cancelled">>)]

Fresh(cfg) ==
    [kind |-> cfg.kind, alive |-> TRUE, out |-> <<>>,
     t |-> [mode |-> "text", verb |-> 0, part |-> <<>>, left |-> 0, text |-> <<>>, raw |-> <<>>, signs |-> <<>>,
            alive |-> TRUE],
     now |-> 0, asks |-> <<>>, at |-> 0 - 1, sent |-> <<>>, done |-> <<>>, count |-> 0, ids |-> 0,
     ready |-> FALSE]
(* It starts with a question that each device can answer. *)
Start(cfg) ==
    IF cfg.kind = "scpi"
    THEN Run([Fresh(cfg) EXCEPT !.asks = <<[id |-> 0, query |-> TRUE, waits |-> TRUE, limit |-> 10]>>])
    ELSE Fresh(cfg)

(* Cut anywhere, but what isn't escaped is text in the end. *)
Allowed(y, op) ==
    CASE op.k = "data" -> y.kind = "telnet" /\ y.t.alive /\ op.bytes # <<>>
      [] op.k \in {"command", "option"} -> y.kind = "telnet"
      [] op.k \in {"ask", "line"} -> y.kind = "scpi" /\ y.alive
      [] op.k = "cancel" -> y.kind = "scpi" /\ y.alive /\ \E i \in DOMAIN y.asks : y.asks[i].id = op.id /\ op.id > 0
      [] op.k = "tick" -> y.kind = "scpi" /\ y.alive
      [] OTHER -> FALSE
Act(y0, op) ==
    LET y == [y0 EXCEPT !.sent = <<>>, !.done = <<>>, !.out = <<>>] IN
    CASE op.k = "data" -> [y EXCEPT !.t = Piece(y.t, IF y.t.alive THEN op.bytes ELSE <<>>)]
      [] op.k = "command" -> [y EXCEPT !.out = <<Iac, op.code>>, !.t = Piece(y.t, <<>>)]
      [] op.k = "option" -> [y EXCEPT !.out = <<Iac, op.code, op.n>>, !.t = Piece(y.t, <<>>)]
      [] op.k = "ask" ->
           Run([y EXCEPT !.ids = @ + 1,
                         !.asks = Append(@, [id |-> y.ids + 1, query |-> op.query, limit |-> op.limit,
                                             waits |-> op.query \/ op.response])])
      [] op.k = "line" -> Heard(y, op)
      [] op.k = "cancel" -> Cancel(y, op.id)
      [] op.k = "tick" -> Pass(y, y.now + op.d)
      [] OTHER -> y
See(y) == [alive |-> y.alive /\ y.t.alive, text |-> y.t.text, raw |-> y.t.raw, signs |-> y.t.signs, out |-> y.out,
           sent |-> y.sent, done |-> y.done, ready |-> y.ready]
XInit(cfg) == x = Start(cfg) /\ obs = See(x)
XDo(op) == x' = Act(x, op) /\ obs' = See(x')

(* A character is never left open longer than it lasts. *)
Whole == x.t.left \in 0..3 /\ (x.t.left = 0) = (x.t.part = <<>>)
(* One question at a time, in turn; nobody waits while nothing is asked. *)
Turn == /\ (x.asks = <<>>) = (x.at < 0)
        /\ \A i, j \in DOMAIN x.asks : i < j => x.asks[i].id < x.asks[j].id
        /\ x.at >= 0 => x.at > x.now
(* An answer is a line that came while the question was asked. *)
Fits == \A i \in DOMAIN x.done : x.done[i][1] <= x.ids
=============================================================================
