------------------------------ MODULE Arbiter ------------------------------
(***************************************************************************)
(* The connection arbiter (runtimepy.net.arbiter.base): an application's   *)
(* lifecycle.  Deferred connections are made, every registered connection  *)
(* is initialized, structs and periodic tasks are built, then stages of    *)
(* application methods run in order for as long as they succeed; whichever *)
(* way that ends, everything is shut down before the application returns.  *)
(*                                                                         *)
(* Times: everything happens at multiples of 4, the stop signal is set 2   *)
(* later and closing a connection takes an odd time, so nothing is due at  *)
(* the same time as something it's ordered with.                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Grace, Period
VARIABLES a, obs
avars == <<a, obs>>

(* Stand-ins for a result code. *)
Nothing == 100000
Raised == 100001
Min2(x, y) == IF x < y THEN x ELSE y
(* cfg: conns [kind, name, init, delay], inits and apps (stage sizes),     *)
(* check, build, tinit.                                                    *)
IsReg(c) == c.kind = "reg"
IsDef(c) == c.kind = "def"
(* A name is taken by whoever registered it first. *)
Named(cs, i) == cs[i].kind # "srv" /\ \A j \in 1..(i - 1) : cs[j].kind = "srv" \/ cs[j].name # cs[i].name
Conn0(cs, i) == [st |-> "new", en |-> TRUE, ini |-> FALSE, q |-> Named(cs, i) /\ IsReg(cs[i]),
                 reg |-> Named(cs, i) /\ IsReg(cs[i]), made |-> "no", pass |-> FALSE, late |-> FALSE,
                 until |-> 0, closes |-> 0]
AFresh(cfg) ==
    [cfg |-> cfg, ph |-> "new", cs |-> [i \in 1..Len(cfg.conns) |-> Conn0(cfg.conns, i)],
     man |-> "none", shut |-> 0, stop |-> FALSE, now |-> 0,
     grp |-> "inits", k |-> 0, apps |-> <<>>, base |-> 0, table |-> <<>>, info |-> FALSE,
     built |-> FALSE, tinit |-> FALSE, t0 |-> -1, t1 |-> -1, polls |-> 0, result |-> Nothing]

Idx(x) == 1..Len(x.cs)
Active(c) == c.st \in {"init", "up", "closing"}

(* Connections. *)
Close(x, i) ==
    LET d == x.cfg.conns[i].delay IN
    [x EXCEPT !.cs[i].closes = @ + 1, !.cs[i].until = x.now + d,
              !.cs[i].st = IF d = 0 THEN "closed" ELSE "closing"]
Disable(x, i) ==
    IF ~x.cs[i].en THEN x
    ELSE LET y == [x EXCEPT !.cs[i].en = FALSE, !.cs[i].ini = FALSE]
         IN IF x.cs[i].st \in {"init", "up"} THEN Close(y, i) ELSE y
Inited(x, i, v) ==
    CASE v = "ok" -> [x EXCEPT !.cs[i].st = "up", !.cs[i].ini = TRUE]
      [] v = "no" -> Close([x EXCEPT !.cs[i].en = FALSE, !.cs[i].ini = TRUE], i)
      [] v = "raise" -> Close([x EXCEPT !.cs[i].en = FALSE, !.cs[i].ini = FALSE], i)
      [] OTHER -> [x EXCEPT !.cs[i].st = "init"]
RECURSIVE Each(_, _, _)
Each(x, F(_, _), i) == IF i > Len(x.cs) THEN x ELSE Each(F(x, i), F, i + 1)
TakeOne(x, i) == IF x.cs[i].q /\ x.man = "run" THEN Inited([x EXCEPT !.cs[i].q = FALSE], i, x.cfg.conns[i].init) ELSE x
Take(x) == Each(x, TakeOne, 1)

(* The last time a task is dispatched once the stop signal is set. *)
LastTick(x) == x.t0 + (((x.now - x.t0) + Period - 1) \div Period) * Period
(* The stop signal: whatever is managed is given a grace period to close.  *)
StopOne(x, i) == IF x.cs[i].st \in {"init", "up"} THEN Disable(x, i) ELSE x
Stop(x) ==
    IF x.stop THEN x
    ELSE LET y == Each([x EXCEPT !.stop = TRUE, !.t1 = IF x.t0 >= 0 /\ @ < 0 THEN LastTick(x) ELSE @], StopOne, 1)
         IN IF y.man # "run" THEN y
            ELSE IF \E i \in Idx(y) : y.cs[i].st = "closing"
                 THEN [y EXCEPT !.man = "shut", !.shut = y.now + Grace]
                 ELSE [y EXCEPT !.man = "done"]

Over(x) == IF x.ph = "shut" /\ x.man = "done" THEN [x EXCEPT !.ph = "done"] ELSE x
DisReg(x, i) == IF x.cs[i].reg THEN Disable(x, i) ELSE x
End(x, r) ==
    LET y == [x EXCEPT !.ph = "shut", !.result = r, !.polls = IF x.built THEN @ + 1 ELSE @,
                       !.t1 = IF x.t0 >= 0 /\ (@ < 0 \/ x.now < @) THEN x.now ELSE @]
    IN Over(Stop(Each(y, DisReg, 1)))

(* Application stages. *)
Groups(x) == IF x.grp = "inits" THEN x.cfg.inits ELSE x.cfg.apps
NotRun(n) == [j \in 1..n |-> <<"not run", "-">>]
Code(r) == IF r = 0 THEN <<"pass", 0>> ELSE <<"fail", r>>
RECURSIVE Total(_), Failing(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
Failing(q) == IF q = <<>> THEN 0 ELSE IF Head(q) # 0 THEN Head(q) ELSE Failing(Tail(q))
(* Results that cancel out are still failures. *)
StageCode(q) == IF Total(q) # 0 THEN Total(q) ELSE Failing(q)

RECURSIVE Go(_), Next(_)
(* Stages of this group that won't run. *)
Rest(x) == [j \in 1..(Len(Groups(x)) - x.k) |-> NotRun(Groups(x)[x.k + j])]
Fail(x, r) == End([x EXCEPT !.table = @ \o Rest(x)], r)
Next(x) ==
    IF x.k < Len(Groups(x))
    THEN LET n == Groups(x)[x.k + 1] IN
         Go([x EXCEPT !.k = @ + 1, !.base = Len(x.apps),
                      !.apps = @ \o [j \in 1..n |-> [st |-> "run", r |-> 0]]])
    ELSE IF x.grp = "inits" THEN Next([x EXCEPT !.grp = "apps", !.k = 0])
    ELSE End(x, 0)
Stage(x) == [j \in 1..Groups(x)[x.k] |-> x.apps[x.base + j]]
Run(x) ==
    LET q == Stage(x) IN
    IF \E j \in DOMAIN q : q[j].st = "raised"
    THEN Fail([x EXCEPT !.table = Append(@, [j \in DOMAIN q |-> <<"exception", "-">>])], -1)
    ELSE IF \E j \in DOMAIN q : q[j].st = "run" THEN x
    ELSE LET rs == [j \in DOMAIN q |-> q[j].r]
             y == [x EXCEPT !.table = Append(@, [j \in DOMAIN q |-> Code(q[j].r)])]
         IN IF StageCode(rs) = 0 THEN Next(y) ELSE Fail(y, StageCode(rs))

MadeOne(x, i) == IF IsDef(x.cfg.conns[i]) /\ Named(x.cfg.conns, i)
                 THEN [x EXCEPT !.cs[i].q = TRUE, !.cs[i].reg = TRUE] ELSE x
(* A connection that ended before anything waited for it is waited for     *)
(* until it's closed.                                                      *)
LateOne(x, i) == IF x.cs[i].reg /\ ~x.cs[i].en THEN [x EXCEPT !.cs[i].late = TRUE] ELSE x
Gone(c) == IF c.late THEN c.st = "closed" ELSE ~c.en
PassOne(x, i) == IF x.cs[i].reg /\ (x.cs[i].ini \/ Gone(x.cs[i]) \/ x.stop)
                 THEN [x EXCEPT !.cs[i].pass = TRUE] ELSE x
Deferred(x) == {i \in Idx(x) : IsDef(x.cfg.conns[i]) /\ Named(x.cfg.conns, i)}
Regs(x) == {i \in Idx(x) : x.cs[i].reg}
Go(x) ==
    CASE x.ph = "def" ->
           IF \E i \in Deferred(x) : x.cs[i].made = "raise" THEN End(x, Raised)
           ELSE IF \E i \in Deferred(x) : x.cs[i].made = "no" THEN x
           ELSE Go([Take(Each(Each(x, LateOne, 1), MadeOne, 1)) EXCEPT !.ph = "init"])
      [] x.ph = "init" ->
           LET y == Each(x, PassOne, 1) IN
           IF \E i \in Regs(y) : ~y.cs[i].pass THEN y
           ELSE IF y.stop /\ \E i \in Regs(y) : ~y.cs[i].ini THEN End(y, -1)
           ELSE IF y.cfg.check /\ \E i \in Regs(y) : ~y.cs[i].en THEN End(y, -1)
           ELSE Go([y EXCEPT !.ph = "build"])
      [] x.ph = "build" ->
           LET y == [x EXCEPT !.info = TRUE, !.built = TRUE] IN
           IF y.cfg.build = "raise" THEN End(y, Raised)
           ELSE LET z == [y EXCEPT !.tinit = TRUE] IN
                IF z.cfg.tinit = "raise" THEN End(z, Raised)
                ELSE Next([z EXCEPT !.ph = "run", !.t0 = z.now, !.t1 = IF z.stop THEN z.now ELSE -1])
      [] x.ph = "run" -> Run(x)
      [] OTHER -> x

(* Time passes: connections finish closing, managing is cut short. *)
CloseBy(x, t) == [x EXCEPT !.cs = [i \in Idx(x) |->
    IF x.cs[i].st = "closing" /\ x.cs[i].until <= t THEN [x.cs[i] EXCEPT !.st = "closed"] ELSE x.cs[i]]]
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
RECURSIVE Pass(_, _)
Pass(x, t) ==
    LET due == {v \in {x.cs[i].until : i \in {i \in Idx(x) : x.cs[i].st = "closing"}}
                     \cup (IF x.man = "shut" THEN {x.shut} ELSE {}) : v <= t}
    IN IF due = {} THEN [x EXCEPT !.now = t]
       ELSE LET u == Least(due)
                y == [CloseBy(x, u) EXCEPT !.now = u]
                busy == {i \in Idx(y) : y.cs[i].st = "closing"}
            IN IF y.man = "shut" /\ (busy = {} \/ u = y.shut)
               THEN Pass(Over([y EXCEPT !.man = "done",
                                        !.cs = [i \in Idx(y) |-> IF i \in busy THEN [y.cs[i] EXCEPT !.st = "cut"] ELSE y.cs[i]]]), t)
               ELSE Pass(Go(y), t)

(* The manager begins once the arbiter waits for something. *)
Begin(x) == Go(Take([x EXCEPT !.ph = IF Deferred(x) = {} THEN "init" ELSE "def", !.man = IF x.stop THEN "done" ELSE "run"]))
AStep(x, o) ==
    CASE o.k = "run" -> IF x.ph # "new" THEN x ELSE Begin(x)
      [] o.k = "init" -> IF x.cs[o.i].st # "init" THEN x ELSE Go(Inited(x, o.i, o.v))
      [] o.k = "made" -> IF x.ph = "new" \/ x.cs[o.i].made # "no" \/ x.cfg.conns[o.i].kind # "def" THEN x
                         ELSE Go([x EXCEPT !.cs[o.i].made = o.v])
      [] o.k = "drop" -> IF x.cs[o.i].st \notin {"init", "up"} THEN x ELSE Go(Disable(x, o.i))
      [] o.k = "serve" -> IF x.cs[o.i].st # "new" \/ x.cs[o.i].q \/ x.cfg.conns[o.i].kind # "srv" THEN x
                          ELSE Take([x EXCEPT !.cs[o.i].q = TRUE])
      [] o.k = "fin" -> IF o.i > Len(x.apps) \/ (o.i <= Len(x.apps) /\ x.apps[o.i].st # "run") THEN x
                        ELSE Go([x EXCEPT !.apps[o.i] = [st |-> "done", r |-> o.r]])
      [] o.k = "fail" -> IF o.i > Len(x.apps) \/ (o.i <= Len(x.apps) /\ x.apps[o.i].st # "run") THEN x
                         ELSE Go([x EXCEPT !.apps[o.i] = [st |-> "raised", r |-> 0]])
      [] o.k = "stop" -> IF x.stop THEN x ELSE Go(Stop(Pass(x, x.now + 2)))
      [] o.k = "adv" -> Pass(x, x.now + o.d)

(* A task is dispatched when it's started and                              *)
(* every period; it notices the stop signal when it's dispatched.          *)
Ticks(x) == IF x.t0 < 0 THEN 0
            ELSE ((IF x.t1 < 0 THEN x.now ELSE Min2(x.now, x.t1)) - x.t0) \div Period + 1
Good(x) == \A j \in 1..Len(x.table) : \A n \in 1..Len(x.table[j]) : x.table[j][n][1] = "pass"
Threw(x) == \E j \in 1..Len(x.table) : \E n \in 1..Len(x.table[j]) : x.table[j][n][1] = "exception"
ASeen(x) ==
    [cs |-> [i \in Idx(x) |-> <<x.cs[i].en, x.cs[i].ini, x.cs[i].closes, x.cs[i].st = "closed">>],
     reg |-> [i \in Idx(x) |-> x.cs[i].reg],
     run |-> x.ph \notin {"new", "done"}, stop |-> x.stop, result |-> IF x.ph # "done" THEN "none" ELSE IF x.result = Raised THEN "raised" ELSE x.result,
     apps |-> [j \in 1..Len(x.apps) |-> x.apps[j].st],
     table |-> x.table, good |-> IF x.info THEN Good(x) ELSE TRUE, threw |-> Threw(x),
     task |-> <<x.tinit, Ticks(x)>>, polls |-> x.polls,
     found |-> IF x.ph = "run" /\ ~x.stop
               THEN Cardinality({i \in Idx(x) : x.cs[i].reg \/ Active(x.cs[i])}) ELSE 0]
AInit(cfg) == a = AFresh(cfg) /\ obs = ASeen(a)
ADo(o) == a' = AStep(a, o) /\ obs' = ASeen(a')

-----------------------------------------------------------------------------
(* When it's over nothing is left: the signal is set, no task is running,  *)
(* no connection is enabled, and each one that was processed was closed,   *)
(* or ran out of time.                                                     *)
Ended == a.ph = "done" =>
    /\ a.stop
    /\ a.t0 >= 0 => a.t1 >= 0
    /\ \A i \in Idx(a) : ~Active(a.cs[i]) /\ (a.cs[i].reg => ~a.cs[i].en)
    /\ a.polls = (IF a.built THEN 1 ELSE 0)
(* Zero means that every method ran and passed. *)
Success == (a.ph = "done" /\ a.result # Raised) =>
    (a.result = 0) = (a.info /\ Good(a) /\ Len(a.table) = Len(a.cfg.inits) + Len(a.cfg.apps))
(* Methods run only when every earlier stage passed, never before every    *)
(* registered connection was initialized or while one is missing.          *)
InOrder == \A j \in 1..Len(a.table) : \A n \in 1..Len(a.table[j]) :
    a.table[j][n][1] \in {"pass", "not run"} \/
    \A m \in 1..(j - 1) : \A n2 \in 1..Len(a.table[m]) : a.table[m][n2][1] = "pass"
Ready == (Len(a.apps) > 0) => a.tinit /\ \A i \in Regs(a) : a.cs[i].pass
Once == \A i \in Idx(a) : a.cs[i].closes <= 1
NoHang == (a.ph = "init" /\ a.stop) => FALSE
=============================================================================
