------------------------------- MODULE MCTelem -------------------------------
EXTENDS Telem, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
Cfgs == <<[kinds |-> <<"u8", "f32">>, mtu |-> 100, seq |-> 0, start |-> 1000],
          [kinds |-> <<"bits", "flag", "i16">>, mtu |-> 110, seq |-> 65534, start |-> 1000]>>
MCInit == \E i \in DOMAIN Cfgs : XInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
Ops == {[k |-> "set", c |-> c, v |-> v] : c \in 1..2, v \in {3, 5}}
       \cup {[k |-> "capture", sample |-> s, flush |-> f] : s, f \in BOOLEAN}
       \cup {[k |-> "deliver", i |-> i] : i \in 1..3} \cup {[k |-> "tick", d |-> 7]}
Tame(o) == /\ o.k = "capture" /\ ~o.sample => o.flush
           /\ hist[Len(hist)].k \in {"tick", "set"} => o.k # "tick"
           /\ o.k = "set" => x.vals[o.c] # Fit(x.kinds[o.c], o.v)
MCNext == /\ Len(hist) < MaxOps + 1
          /\ \E o \in Ops : Allowed(x, o) /\ Tame(o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, Len(hist)>>
Emit == Len(hist') = MaxOps + 1 => PrintT("SCN " \o ToJson(hist'))
=============================================================================
