------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* C03: size-prefixed messages on a byte stream.  The sender turns a       *)
(* message into prefix bytes and payload; the network hands the receiver   *)
(* the stream in arbitrary pieces; the receiver delivers messages.         *)
(* A message is a sequence over 0..255.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES psize,   \* bytes of the size prefix
          order,   \* "big" or "little"
          sent,    \* messages handed to the sender so far
          wire,    \* bytes sent but not yet received
          buf,     \* bytes received but not yet delivered
          got,     \* messages delivered so far
          obs
fvars == <<psize, order, sent, wire, buf, got>>

Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]

RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)
Prefix(v) == IF order = "little" THEN LE(v, psize) ELSE Rev(LE(v, psize))

RECURSIVE Value(_)       \* little-endian
Value(q) == IF q = <<>> THEN 0
            ELSE IF \A n \in 1..Len(q) : q[n] = 0 THEN 0
            ELSE Head(q) + 256 * Value(Tail(q))
Length(q) == Value(IF order = "little" THEN q ELSE Rev(q))

Encode(m) == Prefix(Len(m)) \o m

(* Split a buffer into complete messages and a remainder. *)
Complete(b) == Len(b) >= psize /\ Len(b) >= psize + Length(SubSeq(b, 1, psize))
First(b) == SubSeq(b, psize + 1, psize + Length(SubSeq(b, 1, psize)))
Rest(b) == SubSeq(b, psize + 1 + Length(SubSeq(b, 1, psize)), Len(b))

(* limit: how many messages the consumer takes before it gives up (9999: all)*)
RECURSIVE Parse(_, _, _)
Parse(b, acc, limit) ==
    IF Complete(b) /\ limit # 0
    THEN Parse(Rest(b), Append(acc, First(b)), limit - 1)
    ELSE [rest |-> b, out |-> acc]

Send(m) ==
    /\ sent' = Append(sent, m)
    /\ wire' = wire \o Encode(m)
    /\ obs' = [wire |-> Encode(m), out |-> <<>>]
    /\ UNCHANGED <<psize, order, buf, got>>

Recv(bytes, limit) ==
    LET p == Parse(buf \o bytes, <<>>, limit) IN
    /\ buf' = p.rest
    /\ got' = got \o p.out
    /\ obs' = [wire |-> <<>>, out |-> p.out]
    /\ UNCHANGED <<psize, order, sent>>

(* The next n bytes of the stream arrive. *)
RecvWire(n, limit) ==
    /\ Recv(SubSeq(wire, 1, n), limit)
    /\ wire' = SubSeq(wire, n + 1, Len(wire))

(* The link is lost and established again: what hadn't arrived (completely) *)
(* never will.                                                              *)
Lost ==
    /\ sent' = got /\ wire' = <<>> /\ buf' = <<>>
    /\ obs' = [wire |-> <<>>, out |-> <<>>]
    /\ UNCHANGED <<psize, order, got>>

Do(o) ==
    CASE o.k = "send" -> Send(o.m)
      [] o.k = "recv" -> RecvWire(o.n, o.limit)
      [] o.k = "lost" -> Lost
      [] OTHER -> FALSE

InitWith(p, ord) ==
    /\ psize = p /\ order = ord /\ sent = <<>> /\ wire = <<>> /\ buf = <<>>
    /\ got = <<>> /\ obs = [wire |-> <<>>, out |-> <<>>]

-----------------------------------------------------------------------------
RECURSIVE Flatten(_)
Flatten(ms) == IF ms = <<>> THEN <<>> ELSE Encode(Head(ms)) \o Flatten(Tail(ms))

InOrderOnce == Len(got) <= Len(sent) /\ SubSeq(sent, 1, Len(got)) = got
NothingLost == Flatten(got) \o buf \o wire = Flatten(sent)
Prompt == (obs.out # <<>> /\ Len(wire) = 0 /\ buf = <<>>) => got = sent
(* Unless the consumer stopped early, nothing complete is held back. *)
=============================================================================
