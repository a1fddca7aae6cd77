------------------------------- MODULE MCHttp -------------------------------
EXTENDS Http, Json, TLC
CONSTANTS Cfgs, MaxOps, MaxReq
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) : XInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
Ws == <<<<200, 0, 0, 0>>, <<404, 1, 2, 1>>>>
Ask(s, m, b, w, blk) == [k |-> "req", s |-> s, m |-> m, t |-> 0, b |-> b, n |-> 0, w |-> Ws[w], blk |-> blk]
(* Who asks now isn't being asked, nor was, with anything left of it. *)
Clear(s) == LET o == Other(s) IN
    x.q[o] = <<>> /\ x.sent[o] = <<>> /\ x.wire[o] = <<>> /\ x.inb[s] = <<>> /\ x.busy[s] = NoMsg
Turn(s) == Clear(s) \/ (~x.cfg.real[s] /\ x.q[Other(s)] = <<>> /\ x.sent[Other(s)] = <<>>)
           \/ x.q[s] # <<>> \/ x.sent[s] # <<>>
Ops ==
    (IF x.ids >= MaxReq THEN {}
     ELSE {Ask(s, m, b, w, blk) : s \in {z \in Sides : Turn(z)}, m \in {1, NoHandler}, b \in {0, 3}, w \in {2}, blk \in BOOLEAN}
          \ {o \in [k : {"req"}, s : Sides, m : {NoHandler}, t : {0}, b : {0, 3}, n : {0}, w : {Ws[2]}, blk : {TRUE}] : TRUE})
    \cup UNION {{[k |-> "dlv", s |-> s, n |-> n] : n \in {z \in 1..5 : z <= Len(x.wire[s])}} : s \in Sides}
    \cup UNION {{[k |-> "cancel", s |-> s, i |-> i] : i \in 1..Len(x.q[s])} : s \in Sides}
    \cup {[k |-> "free", s |-> s] : s \in {z \in Sides : x.busy[z] # NoMsg}}
    \cup {[k |-> "answer", s |-> s, w |-> Ws[w]] : s \in {z \in Sides : ~x.cfg.real[z] /\ Reqs(x.inb[z]) # <<>>}, w \in {1, 2}}
    \cup {[k |-> "junk", s |-> s, j |-> j] : s \in {z \in Sides : ~x.cfg.real[z] /\ Len(x.wire[z]) < 4}, j \in {"blank"}}
    \cup {[k |-> "junk", s |-> s, j |-> "bad"] : s \in {z \in Sides : ~x.cfg.real[z] /\ x.wire[z] = <<>>}}
    \cup (IF x.alive = <<FALSE, FALSE>> THEN {[k |-> "again"]} ELSE {[k |-> "cut"]})
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : XDo(o) /\ hist' = Append(hist, o)
MCView == <<[x EXCEPT !.h = <<>>, !.r = <<>>, !.w = <<>>, !.log = <<>>], Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstCfgs == <<[real |-> <<TRUE, TRUE>>], [real |-> <<FALSE, TRUE>>], [real |-> <<TRUE, FALSE>>]>>
=============================================================================
