------------------------------ MODULE MCConnect ------------------------------
EXTENDS Connect, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
MCInit == XInit([k |-> "all"]) /\ hist = <<>>
Backs == {[back |-> FALSE, interval |-> 0, cap |-> 0, tries |-> 0],
          [back |-> TRUE, interval |-> 2, cap |-> 5, tries |-> 3]}
Kinds == {[kind |-> "tcp", connect |-> TRUE, remote |-> 1, local |-> 0, form |-> "given"],
          [kind |-> "tcp", connect |-> TRUE, remote |-> 2, local |-> 3, form |-> "given"]}
         \cup {[kind |-> "udp", connect |-> c, remote |-> r, local |-> i, form |-> f] :
               c \in BOOLEAN, r \in {0, 1}, i \in {0, 3}, f \in {"given", "class"}}
Ops == {[k |-> "create", kind |-> o.kind, connect |-> o.connect, remote |-> o.remote, local |-> o.local,
         form |-> o.form, back |-> b.back, interval |-> b.interval, cap |-> b.cap, tries |-> b.tries] :
        o \in Kinds, b \in Backs}
       \cup {[k |-> "again", back |-> b.back, interval |-> b.interval, cap |-> b.cap, tries |-> b.tries] : b \in Backs}
       \cup {[k |-> "net", up |-> u] : u \in BOOLEAN}
       \cup {[k |-> "lost"], [k |-> "send"], [k |-> "serve"], [k |-> "accept", from |-> 4], [k |-> "close"],
             [k |-> "tick", d |-> 7]}
(* One at a time is made here. *)
Tame(o) == /\ o.k = "create" => x.phase = "none"
           /\ (o.k = "serve" \/ o.k = "tick") => hist # <<>>
           /\ o.k = "send" => hist[Len(hist)].k # "send"
MCNext == /\ Len(hist) < MaxOps
          /\ \E o \in Ops : Allowed(x, o) /\ Tame(o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, Len(hist)>>
Emit == Len(hist') = MaxOps => PrintT("SCN " \o ToJson(hist'))
=============================================================================
