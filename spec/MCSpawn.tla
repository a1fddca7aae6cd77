------------------------------ MODULE MCSpawn ------------------------------
EXTENDS Spawn, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
Cfg(i) == [out |-> i \in {1, 2}, err |-> i \in {1, 3}]
Earlies == {<<>>, <<<<"data", 1, 3>>>>, <<<<"data", 2, 4>>, <<"data", 1, 2>>>>, <<<<"data", 1, 5>>, <<"exit", 0, 7>>>>,
            <<<<"lost", 2, 0>>>>}
MCInit == \E i \in 1..4 : XInit(Cfg(i)) /\ hist = <<[k |-> "cfg", i |-> i]>>
Ops == {[k |-> "start", how |-> h, early |-> e] : h \in {"exec", "shell"}, e \in Earlies}
    \cup {[k |-> "data", fd |-> fd, n |-> Len(hist)] : fd \in {1, 2}}
    \cup {[k |-> "lost", fd |-> fd, n |-> 0] : fd \in {1, 2}}
    \cup {[k |-> "exit", fd |-> 0, n |-> 3], [k |-> "send", n |-> 2]}
    \cup {[k |-> "take", fd |-> fd] : fd \in {i \in {1, 2} : x.want[i]}}
    \cup {[k |-> "leave", react |-> r, how |-> h] : r \in {"eof", "slow", "never"}, h \in {"return", "raise", "cancel"}}
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, hist[1], Len(hist)>>
Emit == (Len(hist') = MaxOps + 1 \/ x'.left) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
