------------------------------ MODULE MCMetrics ------------------------------
EXTENDS Metrics, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
MCInit == XInit([kind |-> "tcp"]) /\ hist = <<>>
Ops == {[k |-> c, n |-> n, wide |-> w, text |-> w, c |-> 1] : c \in {"send", "recv"}, n \in {125, 375}, w \in BOOLEAN}
       \cup {[k |-> "send", n |-> 125, wide |-> FALSE, text |-> TRUE, c |-> 2]}
       \cup {[k |-> k, c |-> c] : k \in {"poll", "reset", "copy"}, c \in {1, 2}}
       \cup {[k |-> "log", c |-> 1], [k |-> "pollall"], [k |-> "resetall"]}
       \cup {[k |-> "tick", d |-> d] : d \in {1, 3}}
Tame(o) == IF hist = <<>> THEN TRUE ELSE ~(o.k = "tick" /\ hist[Len(hist)].k = "tick")
MCNext == /\ Len(hist) < MaxOps
          /\ \E o \in Ops : Tame(o) /\ Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, Len(hist)>>
Emit == Len(hist') = MaxOps => PrintT("SCN " \o ToJson(hist'))
=============================================================================
