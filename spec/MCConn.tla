------------------------------- MODULE MCConn -------------------------------
EXTENDS Conn, Json
CONSTANTS Flav, InitMode, Plan, MaxOps, Mode
VARIABLE hist
MCInit == s = Fresh(Flav, InitMode, Plan) /\ obs = Seen(s) /\ hist = <<>>

N == Len(hist) + 1
M(r) == <<N, r>>
(* Only one cause to disable at a time, with nothing else pending. *)
Idle == s.phase # "run"
Clean == s.inq = <<>> /\ s.outt = <<>> /\ s.outb = <<>>
Recvs == IF Idle THEN {<<M("ok")>>} ELSE {<<M("ok"), M("ok")>>, <<M("ok"), M("no"), M("ok")>>, <<M("raise"), M("ok")>>, <<M("block"), M("ok")>>}
Sends == {<<M("ok"), M("ok")>>} \cup IF Idle \/ s.flav # "queue" THEN {} ELSE {<<M("ok"), M("raise"), M("ok")>>}
Ops ==
    (IF Idle /\ s.phase = "idle" /\ (~s.stop \/ Clean) THEN [k : {"start"}, stop : BOOLEAN, dt : {0, 3}] ELSE {})
    \cup [k : {"recv"}, ms : Recvs]
    \cup (IF Mode = "io" THEN [k : {"text", "bin"}, ms : Sends] ELSE {})
    \cup (IF Idle THEN {} ELSE {[k |-> "drop", what |-> "recv", ms |-> <<M("ok")>>], [k |-> "drop", what |-> "text", ms |-> <<M("ok")>>]})
    \cup (IF Clean \/ ~Idle THEN {[k |-> "disable"], [k |-> "stop"]} ELSE {})
    \cup (IF Clean \/ ~Idle THEN {[k |-> "eof"]} ELSE {})
    \cup (IF s.gate THEN [k : {"init"}, r : {"ok", "no", "raise"}] ELSE {})
    \cup (IF s.blocked THEN [k : {"release"}, ok : BOOLEAN] ELSE {})
    \cup (IF s.extra < 2 /\ s.en THEN {[k |-> "task"]} ELSE {})
    \cup (IF s.flav # "queue" /\ s.closes > 0 THEN {[k |-> "late"]} ELSE {})
    \cup (IF s.closes = 1 /\ ~s.badc THEN {[k |-> "break"]} ELSE {})
    \cup (IF s.stop THEN {[k |-> "resume"]} ELSE {})
    \cup (IF s.phase = "wait" \/ s.dlim # 0 THEN [k : {"adv"}, d : {1, 3}] ELSE {})
MCNext == Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
(* What was handled and sent, and when, needn't be told apart. *)
MCView == <<[s EXCEPT !.got = Len(@), !.sent = Len(@), !.sentb = Len(@), !.fin = 0, !.closes = Min2(@, 2),
                      !.now = 0, !.dlim = IF @ = 0 THEN 0 ELSE @ - s.now, !.wake = IF s.phase = "wait" THEN @ - s.now ELSE 0,
                      !.tries = <<>>, !.ra = Min2(@, 2), !.rs = Min2(@, 1)], Len(hist)>>
Emit == PrintT("SCN " \o ToJson(hist'))
ConstNone == <<>>
ConstFails == <<"no", "no", "no", "ok", "raise", "no">>
=============================================================================
