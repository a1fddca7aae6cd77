---------------------------- MODULE MCMessaging ----------------------------
EXTENDS Messaging, Json
CONSTANTS Bodies, MaxReq, MaxFlight, MaxLog, MaxTime, Apis, Faults
VARIABLES hist,
          asked,   \* ghost: results callers got, with what they asked
          sentLog, \* ghost: log records handed to each peer, in order
          gotLog   \* ghost: log records each peer received
gv == <<asked, sentLog, gotLog>>

ConstBodies == { [None EXCEPT !.lb = 3], [None EXCEPT !.bad = 1],
                 [None EXCEPT !.poll = 2, !.lb = 1] }

MCInit == MsgInit /\ hist = <<>> /\ asked = <<>>
          /\ sentLog = [p \in Peers |-> <<>>] /\ gotLog = [p \in Peers |-> <<>>]

Flight == Len(inbox[1]) + Len(inbox[2])
Room == Flight < MaxFlight
NLogs == Len(sentLog[1]) + Len(sentLog[2])
Ops ==
    (IF Len(waits) < MaxReq /\ Room
     THEN { [k |-> "request", p |-> p, api |-> a, until |-> 12,
             m |-> IF a = "loopback" THEN [None EXCEPT !.lb = 5] ELSE m] :
            p \in Peers, a \in Apis, m \in Bodies } ELSE {})
    \cup (IF Room /\ Len(waits) < MaxReq
          THEN [k : {"send"}, p : Peers, m : {[None EXCEPT !.lb = 4]}] ELSE {})
    \cup {[k |-> "deliver", p |-> p, n |-> n] :
            p \in {q \in Peers : Len(inbox[q]) > 0}, n \in {1}}
    \cup {[k |-> "deliver", p |-> p, n |-> n] :
            p \in {q \in Peers : Len(inbox[q]) > 1}, n \in {2}}
    \cup (IF "dup" \in Faults /\ Room
          THEN {[k |-> "dup", p |-> p] : p \in {q \in Peers : inbox[q] # <<>>}} ELSE {})
    \cup (IF "lose" \in Faults
          THEN {[k |-> "lose", p |-> p] : p \in {q \in Peers : inbox[q] # <<>>}} ELSE {})
    \cup (IF NLogs < MaxLog
          THEN [k : {"log"}, p : Peers, t : {NLogs + 1}, how : {"stage", "list"}] ELSE {})
    \cup (IF now < MaxTime THEN [k : {"tick"}, d : {8}] ELSE {})

Ghost(o) ==
    /\ asked' = IF o.k # "tick"
                THEN asked \o [n \in 1..Len(obs'.res) |->
                               <<waits[CHOOSE w \in 1..Len(waits) : waits[w].w = obs'.res[n][1]].req,
                                 obs'.res[n][2]>>]
                ELSE asked
    /\ sentLog' = IF o.k = "log" THEN [sentLog EXCEPT ![o.p] = Append(@, o.t)] ELSE sentLog
    /\ gotLog' = IF o.k = "deliver" THEN [gotLog EXCEPT ![o.p] = @ \o obs'.logs] ELSE gotLog

MCNext == \E o \in Ops : Do(o) /\ Ghost(o) /\ hist' = Append(hist, o)
MCView == <<mvars, gv>>
Emit == PrintT("SCN " \o ToJson(hist'))

-----------------------------------------------------------------------------
(* A caller gets the answer to what it asked, or nothing. *)
RightReply == \A n \in 1..Len(asked) :
    LET q == asked[n][1]  r == asked[n][2] IN
    Len(r) = 10 => r = Flat(Bare(Answer(FALSE, q)))
LoopbackTrue == \A n \in 1..Len(asked) : Len(asked[n][2]) = 1 => asked[n][2] = <<TRUE>>

(* Without loss and duplication log records arrive exactly once. *)
RECURSIVE LogsOf(_)
LogsOf(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).logs \o LogsOf(Tail(ms))
Elems(q) == {q[n] : n \in 1..Len(q)}
LogsOnce == Faults = {} =>
    \A p \in Peers :
        LET all == gotLog[p] \o LogsOf(inbox[p]) \o staged[Other(p)] \o listed[Other(p)]
        IN /\ Len(all) = Len(sentLog[Other(p)])
           /\ Elems(all) = Elems(sentLog[Other(p)])

(* Nobody keeps answering answers: with no requests outstanding in flight  *)
(* the conversation dies out.                                              *)
Quiesces == \A p \in Peers : \A n \in 1..Len(inbox[p]) :
    LET m == inbox[p][n] IN
    (m.id # 0 /\ Own(p, m.id)) => Handle(p, Hold(p), m).out = <<>>
=============================================================================
