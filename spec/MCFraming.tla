------------------------------ MODULE MCFraming ------------------------------
EXTENDS Framing, Json
CONSTANTS PSize, Order, Msgs, MaxSent, Limits, Relinks
VARIABLE hist
MCInit == InitWith(PSize, Order) /\ hist = <<>>
Ops == (IF Len(sent) < MaxSent THEN [k : {"send"}, m : Msgs] ELSE {})
       \cup [k : {"recv"}, n : 1..Len(wire), limit : Limits]
       \cup (IF Complete(buf) THEN [k : {"recv"}, n : {0}, limit : Limits] ELSE {})
       \cup (IF Len(SelectSeq(hist, LAMBDA h : h.k = "lost")) < Relinks THEN {[k |-> "lost"]} ELSE {})
MCNext == \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCView == <<fvars, Len(SelectSeq(hist, LAMBDA h : h.k = "lost"))>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstMsgs == {<<>>, <<7>>, <<0, 2>>}
=============================================================================
