------------------------------ MODULE MCWaits ------------------------------
EXTENDS Waits, Json
CONSTANTS Values, Conds, MaxW, MaxS, MaxNow, MaxTs, Bursts, Mode
VARIABLE hist
MCInit == InitWith(<<>>, 0) /\ hist = <<>>

Ops ==
    (IF Len(w) < MaxW THEN [k : {"wait"}, c : Conds, t : {0, 1, 3}] ELSE {})
    \cup (IF Len(s) < MaxS
          THEN [k : {"sample"}, t : {1, 3}, cnt : {-1, 1, 2},
                current : BOOLEAN, slow : BOOLEAN] ELSE {})
    \cup (IF ts < MaxTs THEN [k : {"burst"}, vs : Bursts] ELSE {})
    \cup [k : {"cancel"}, n : {n \in 1..Len(w) : w[n].st = "pending"}]
    \cup [k : {"close"}, n : {n \in 1..Len(s) : s[n].st = "active" /\ s[n].slow}]
    \cup [k : {"permit"}, n : {n \in 1..Len(s) :
                     s[n].st = "active" /\ s[n].slow /\ s[n].permits = 0}]
    \cup (IF now < MaxNow THEN [k : {"advance"}, d : {2}] ELSE {})
MCNext == \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCView == wvars
Emit == PrintT("SCN " \o ToJson(hist'))
FinalProp == [][Final]_<<wvars, obs, hist>>
ConstConds == {<<"EQUAL", 1>>, <<"LESS_THAN", 1>>, <<"NOT_EQUAL", 0>>}
ConstBursts == {<<1>>, <<2>>, <<1, 0>>, <<2, 1, 2>>}
=============================================================================
