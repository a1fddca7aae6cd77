----------------------------- MODULE MCArbiter -----------------------------
EXTENDS Arbiter, Json, TLC
CONSTANTS Cfgs, MaxOps, Steps
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) : AInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
Codes == {0, 1, -1}
Ops ==
    (IF a.ph = "new" THEN {[k |-> "run"]} ELSE {})
    \cup [k : {"init"}, i : {i \in Idx(a) : a.cs[i].st = "init"}, v : {"ok", "no", "raise"}]
    \cup [k : {"made"}, i : {i \in Deferred(a) : a.ph # "new" /\ a.cs[i].made = "no"}, v : {"ok", "raise"}]
    \cup [k : {"drop"}, i : {i \in Idx(a) : a.cs[i].st \in {"init", "up"}}]
    \cup [k : {"serve"}, i : {i \in Idx(a) : a.cfg.conns[i].kind = "srv" /\ a.cs[i].st = "new" /\ ~a.cs[i].q}]
    \cup [k : {"fin"}, i : {j \in 1..Len(a.apps) : a.apps[j].st = "run"}, r : Codes]
    \cup [k : {"fail"}, i : {j \in 1..Len(a.apps) : a.apps[j].st = "run"}]
    \cup (IF a.stop THEN {} ELSE {[k |-> "stop"]})
    \cup (IF (\E i \in Idx(a) : a.cs[i].st = "closing") \/ (a.t0 >= 0 /\ a.t1 < 0) THEN [k : {"adv"}, d : Steps] ELSE {})
MCNext == Len(hist) <= MaxOps /\ \E o \in Ops : ADo(o) /\ hist' = Append(hist, o)
MCView == <<[a EXCEPT !.now = 0, !.t0 = IF @ < 0 THEN @ ELSE 0, !.t1 = IF @ < 0 THEN @ ELSE 0,
                      !.shut = IF @ = 0 THEN 0 ELSE @ - a.now,
                      !.cs = [i \in Idx(a) |-> [a.cs[i] EXCEPT !.until = IF a.cs[i].st = "closing" THEN @ - a.now ELSE 0]]],
            Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
C(kind, name, init, delay) == [kind |-> kind, name |-> name, init |-> init, delay |-> delay]
K(conns, inits, apps, check, build, tinit) ==
    [conns |-> conns, inits |-> inits, apps |-> apps, check |-> check, build |-> build, tinit |-> tinit]
ConstCfgs == <<
    K(<<>>, <<>>, <<1>>, TRUE, "ok", "ok"),
    K(<<>>, <<1>>, <<2, 1>>, TRUE, "ok", "ok"),
    K(<<C("reg", "a", "gate", 0), C("reg", "b", "ok", 21)>>, <<>>, <<2>>, TRUE, "ok", "ok"),
    K(<<C("reg", "a", "ok", 63), C("srv", "-", "ok", 21)>>, <<1>>, <<1>>, TRUE, "ok", "ok"),
    K(<<C("def", "a", "gate", 21), C("reg", "b", "ok", 0)>>, <<>>, <<1>>, TRUE, "ok", "ok"),
    K(<<C("def", "a", "ok", 21), C("def", "b", "gate", 63)>>, <<>>, <<1, 1>>, TRUE, "ok", "ok"),
    K(<<C("reg", "a", "no", 0), C("reg", "b", "raise", 21)>>, <<1>>, <<1>>, FALSE, "ok", "ok"),
    K(<<C("reg", "a", "gate", 63), C("srv", "-", "gate", 0)>>, <<1>>, <<>>, FALSE, "ok", "ok"),
    K(<<C("reg", "a", "ok", 21)>>, <<>>, <<1>>, TRUE, "raise", "ok"),
    K(<<C("reg", "a", "ok", 21), C("srv", "-", "ok", 63)>>, <<1>>, <<1>>, TRUE, "ok", "raise"),
    K(<<C("reg", "a", "ok", 0), C("reg", "a", "ok", 0), C("def", "a", "ok", 0), C("reg", "b", "ok", 0)>>,
      <<0, 1>>, <<0, 2>>, TRUE, "ok", "ok")>>
=============================================================================
