---------------------------- MODULE MCTelemetry ----------------------------
EXTENDS Telemetry, Json
CONSTANTS MaxOps, Items, Sizes, Mode
VARIABLE hist
MCInit == t = TFresh(Items, Sizes, 2) /\ obs = TSeen(t) /\ hist = <<>>
Sels == IF Mode = "stream" THEN {<<1, 2, 3, 4>>} ELSE {<<1, 2, 3, 4>>, <<1, 3>>, <<4>>}
Ops ==
    {[k |-> "reg", s |-> st, sel |-> q, flush |-> st = 2, met |-> st = 1] :
       st \in IF Mode = "stream" THEN {1} ELSE {x \in 1..2 : t.on[x] = <<>>}, q \in Sels}
    \cup [k : {"unreg", "raise"}, s : {x \in 1..2 : t.on[x] # <<>>}]
    \cup [k : {"set"}, c : {2, 3}, v : {0, 5}, d : IF Mode = "stream" THEN {1} ELSE {0, 2}]
    \cup [k : {"bits"}, i : {2}, v : {0, 3}, d : {1}]
    \cup (IF Mode = "stream" THEN {} ELSE [k : {"minp"}, i : {4}, v : {3}])
    \cup (IF Mode = "stream" /\ t.out[1] # <<>> THEN [k : {"deliver"}, n : {0, 5, 11, 17, 1000}, take : {0, 1}, apply : {TRUE}] ELSE {})
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : TDo(o) /\ hist' = Append(hist, o)
MCView == <<[t EXCEPT !.out = [st \in DOMAIN @ |-> <<Len(@[st]), IF st = 1 THEN SubSeq(@[st], t.parsed + 1, Len(@[st])) ELSE <<>>>>],
                      !.now = 0, !.at = [c \in DOMAIN @ |-> IF Mode = "stream" THEN 0 ELSE t.now - @[c]],
                      !.prev = [i \in DOMAIN @ |-> IF t.minp[i] = 0 \/ t.now - @[i] > 3 THEN 3 ELSE t.now - @[i]],
                      !.msgs = 0, !.bytes = 0, !.fl = <<>>, !.last = <<>>], Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstItems == <<[cell |-> 1, kind |-> "f", at |-> 0, width |-> 1], [cell |-> 1, kind |-> "f", at |-> 1, width |-> 2],
                [cell |-> 2, kind |-> "c", at |-> 0, width |-> 0], [cell |-> 3, kind |-> "c", at |-> 0, width |-> 0]>>
ConstSizes == <<1, 1, 4>>
=============================================================================
