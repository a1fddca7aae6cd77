-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* An application made of configuration files.  An item (a client, server, *)
(* task, ...) is added to a file's list; loading merges the files, runs    *)
(* the builders and registers what's described, section by section, until *)
(* something can't be; running starts all of it in order.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
VARIABLES x, obs

Sections == {"factory", "client", "server", "task", "struct", "process", "port",
             "init", "app", "builder", "over", "config", "junk"}
(* The classes there are: by module, name and kind. *)
Kind(n) == IF n \in {"ConnA", "ConnB"} THEN "conn" ELSE IF n \in {"TaskA", "TaskB"} THEN "task"
           ELSE IF n \in {"StructA", "StructB"} THEN "struct" ELSE IF n = "PeerA" THEN "peer" ELSE "none"
Exists(m, n) == IF m = 1 THEN Kind(n) # "none" ELSE n \in {"ConnA", "TaskA", "StructA"}

Fresh(cfg) ==
    [inc |-> cfg.inc, items |-> <<>>, st |-> "edit", ok |-> TRUE, search |-> <<"base">>,
     ports |-> <<>>, facs |-> <<>>, made |-> <<>>, conns |-> <<>>, later |-> <<>>, tasks |-> <<>>,
     structs |-> <<>>, peers |-> <<>>, inits |-> <<>>, apps |-> <<>>, conf |-> <<>>, files |-> <<>>]

(* Merging: what's first comes first, names that were set stay, and a list *)
(* that's there already isn't added again.                                 *)
Bare(it) == [it EXCEPT !.f = 0]
Part(y, f, s) == LET l == SelectSeq(y.items, LAMBDA it : it.f = f /\ it.s = s)
                 IN [i \in DOMAIN l |-> Bare(l[i])]
Keyed == {"over", "config"}
Join(s, a, b) == IF s \in Keyed
                 THEN a \o SelectSeq(b, LAMBDA it : \A i \in DOMAIN a : a[i].n # it.n)
                 ELSE IF a = b THEN a ELSE a \o b
File(y, f, s) == IF f = 1 /\ y.inc THEN Join(s, Part(y, 1, s), Part(y, 3, s)) ELSE Part(y, f, s)
(* A name that's no file is looked up in the packages, in order.           *)
Holds == [pa |-> 4, pb |-> 5]
Found(y, p) == IF p # 9 THEN p
               ELSE FoldLeft(LAMBDA a, n : IF a # 0 \/ n \notin DOMAIN Holds THEN a ELSE Holds[n], 0, y.search)
Once(paths) == FoldLeft(LAMBDA a, p : IF p \in ToSet(a) THEN a ELSE Append(a, p), <<>>, paths)
Total(y, paths, s) == FoldLeft(LAMBDA a, f : Join(s, a, File(y, f, s)), <<>>, paths)

(* Names for ports stand for their numbers. *)
Known(y, p) == \E i \in DOMAIN y.ports : y.ports[i][1] = p
Value(y, t, hosts) ==
    IF t[1] = "addr" THEN <<IF ~Known(y, t[2]) THEN "addrstr" ELSE IF hosts THEN "addr" ELSE "addrlist", t[2]>>
    ELSE IF t[1] = "ref" THEN IF Known(y, t[2]) THEN <<"port", t[2]>> ELSE <<"refstr", t[2]>>
    ELSE IF t[1] = "host" THEN IF hosts /\ Known(y, t[2]) THEN <<"hostport", t[2]>> ELSE <<"hoststr", t[2]>>
    ELSE t
Values(y, ts, hosts) == [i \in DOMAIN ts |-> Value(y, ts[i], hosts)]
KwValues(y, ts, client) == [i \in DOMAIN ts |-> IF ts[i][1] = "host" THEN <<"hoststr", ts[i][2]>> ELSE Value(y, ts[i], client)]

(* How often a name may be written: classes are found by theirs, as it is *)
(* or in lower case with underscores; anything else isn't known.           *)
Knows(y, kind, n, c) == c # 2 /\ Kind(n) = kind /\ \E i \in DOMAIN y.facs : y.facs[i].n = n
Fac(y, n) == y.facs[CHOOSE i \in DOMAIN y.facs : y.facs[i].n = n]
Bad(y) == [y EXCEPT !.ok = FALSE]
Names(l) == {l[i][1] : i \in DOMAIN l}

Port(y, it, overs) ==
    LET o == SelectSeq(overs, LAMBDA v : v.n = it.n)
        want == IF o = <<>> THEN it.v ELSE o[1].v
        taken == SelectSeq(y.ports, LAMBDA p : p[1] # it.n)
    IN IF \E i \in DOMAIN y.ports : y.ports[i][1] = it.n
       THEN [y EXCEPT !.ports = [i \in DOMAIN @ |-> IF @[i][1] = it.n THEN <<it.n, want>> ELSE @[i]]]
       ELSE [y EXCEPT !.ports = Append(@, <<it.n, want>>)]
Factory(y, it) ==
    IF ~y.ok \/ \E i \in DOMAIN y.facs : y.facs[i].n = it.n /\ y.facs[i].m = it.m THEN y
    ELSE IF ~Exists(it.m, it.n) \/ \E i \in DOMAIN y.facs : y.facs[i].n = it.n THEN Bad(y)
    ELSE [y EXCEPT !.facs = Append(@, [n |-> it.n, m |-> it.m, ns |-> it.ns])]
Client(y, it) ==
    IF ~y.ok THEN y
    ELSE IF ~Knows(y, "conn", it.t, it.c) THEN Bad(y)
    ELSE LET name == Fac(y, it.t).ns \o <<it.n>>
             call == <<"client", it.t, Fac(y, it.t).m, it.n, Values(y, it.args, TRUE), KwValues(y, it.kw, TRUE), it.md>>
             taken == name \in Names(y.conns) \cup Names(y.later)
         IN IF it.d THEN (IF taken THEN Bad(y) ELSE [y EXCEPT !.later = Append(@, <<name, call>>)])
            ELSE LET a == [y EXCEPT !.made = Append(@, call)]
                 IN IF taken THEN Bad(a) ELSE [a EXCEPT !.conns = Append(@, <<name>>)]
Server(y, it) ==
    IF ~y.ok THEN y
    ELSE IF ~Knows(y, "conn", it.t, it.c) THEN Bad(y)
    ELSE [y EXCEPT !.made = Append(@, <<"server", it.t, Fac(y, it.t).m, "", Values(y, it.args, FALSE),
                                        KwValues(y, it.kw, FALSE), "">>)]
Task(y, it) ==
    IF ~y.ok THEN y
    ELSE IF ~Knows(y, "task", it.t, it.c) \/ it.n \in Names(y.tasks) THEN Bad(y)
    ELSE [y EXCEPT !.tasks = Append(@, <<it.n, it.t, Fac(y, it.t).m, IF it.p = 0 THEN 1000 ELSE it.p, it.v, it.md>>)]
Struct(y, it) ==
    IF ~y.ok THEN y
    ELSE IF ~Knows(y, "struct", it.t, it.c) \/ it.n \in Names(y.structs) THEN Bad(y)
    ELSE [y EXCEPT !.structs = Append(@, <<it.n, it.t, Fac(y, it.t).m, it.v>>)]
Process(y, it) ==
    IF ~y.ok THEN y
    ELSE IF ~Knows(y, "peer", it.t, it.c) \/ it.n \in Names(y.peers) THEN Bad(y)
    ELSE [y EXCEPT !.peers = Append(@, <<it.n, it.v, it.md>>)]
Functions == {"good", "one", "two", "neg", "boom"}
Methods(y, l) == \A i \in DOMAIN l : ToSet(l[i].st) \subseteq Functions

Each(y, Op(_, _), l) == FoldLeft(Op, y, l)
Built(b) == [s |-> "struct", f |-> 0, n |-> b.n, t |-> "StructA", c |-> 0, v |-> b.v]
Load(y, paths, wait) ==
    LET ps == Once([i \in DOMAIN paths |-> Found(y, paths[i])])
        P(s) == Total(y, ps, s)
        none == \E i \in DOMAIN ps : ps[i] = 0
        overs == P("over")
        y0 == [y EXCEPT !.st = "loaded", !.files = ps]
        y1 == FoldLeft(LAMBDA a, it : Port(a, it, overs), y0, P("port"))
        y2 == Each(y1, Factory, P("factory"))
        y3 == Each(y2, Client, P("client"))
        y4 == Each(y3, Server, P("server"))
        y5 == Each(y4, Task, P("task"))
        y6 == Each(y5, Struct, P("struct") \o [i \in DOMAIN P("builder") |-> Built(P("builder")[i])])
        y7 == Each(y6, Process, P("process"))
        stages(l) == [i \in DOMAIN l |-> l[i].st]
        y8 == IF ~y7.ok THEN y7 ELSE IF ~Methods(y7, P("init")) THEN Bad(y7)
              ELSE [y7 EXCEPT !.inits = stages(P("init"))]
        apps == stages(P("app")) \o IF wait THEN <<<<"wait_for_stop">>>> ELSE <<>>
        y9 == IF ~y8.ok THEN y8 ELSE IF ~Methods(y8, P("app")) THEN Bad(y8)
              ELSE [y8 EXCEPT !.apps = IF apps = <<>> THEN <<<<"init_only">>>> ELSE apps,
                              !.conf = [i \in DOMAIN P("config") |-> <<P("config")[i].n, P("config")[i].v>>]]
    IN IF none \/ P("junk") # <<>> THEN Bad(y0) ELSE y9

(* What each stage gives, and what it's all worth. *)
Worth(f) == IF f = "one" THEN 1 ELSE IF f = "two" THEN 2 ELSE IF f = "neg" THEN 0 - 1 ELSE 0
Stage(st) ==
    LET sum == FoldLeft(LAMBDA a, f : a + Worth(f), 0, st)
        one == FoldLeft(LAMBDA a, f : IF a # 0 THEN a ELSE Worth(f), 0, st)
    IN IF "boom" \in ToSet(st) THEN 0 - 1 ELSE IF sum # 0 THEN sum ELSE one
RunStages(l) == FoldLeft(LAMBDA a, st : IF a[2] # 0 THEN a ELSE <<a[1] \o st, Stage(st)>>, <<<<>>, 0>>, l)
Hidden == {"wait_for_stop", "init_only"}
Run(y) ==
    LET i == RunStages(y.inits)
        a == IF i[2] = 0 THEN RunStages(y.apps) ELSE <<<<>>, i[2]>>
        seen == SelectSeq(i[1] \o a[1], LAMBDA f : f \notin Hidden)
    IN [log |-> [k \in DOMAIN y.peers |-> <<"peer", y.peers[k][1]>>]
                \o [k \in DOMAIN y.later |-> y.later[k][2]]
                \o [k \in DOMAIN y.structs |-> <<"struct", y.structs[k][1]>>]
                \o [k \in DOMAIN y.tasks |-> <<"task", y.tasks[k][1]>>]
                \o [k \in DOMAIN seen |-> <<"app", seen[k]>>],
        res |-> a[2],
        info |-> IF seen = <<>> THEN <<>>
                 ELSE <<[k \in DOMAIN y.conns |-> y.conns[k][1]] \o [k \in DOMAIN y.later |-> y.later[k][1]],
                        [k \in DOMAIN y.tasks |-> y.tasks[k][1]], [k \in DOMAIN y.structs |-> y.structs[k][1]],
                        [k \in DOMAIN y.peers |-> y.peers[k][1]], y.conf, y.ports>>]
Nothing == [log |-> <<>>, res |-> 0, info |-> <<>>]
Search(y, n, front) == IF n \in ToSet(y.search) THEN y
                       ELSE [y EXCEPT !.search = IF front THEN <<n>> \o @ ELSE Append(@, n)]
Allowed(y, op) == CASE op.k = "add" -> y.st = "edit"
                    [] op.k = "search" -> y.st = "edit"
                    [] op.k = "load" -> y.st = "edit"
                    [] op.k = "run" -> y.st = "loaded" /\ y.ok
                    [] OTHER -> FALSE
Act(y, op) == CASE op.k = "add" -> [y EXCEPT !.items = Append(@, op.it)]
                [] op.k = "search" -> Search(y, op.n, op.front)
                [] op.k = "load" -> Load(y, op.paths, op.wait)
                [] op.k = "run" -> [y EXCEPT !.st = "ran"]
                [] OTHER -> y
See(y, r) ==
    [ok |-> y.ok, ports |-> y.ports, made |-> y.made, conns |-> [i \in DOMAIN y.conns |-> y.conns[i][1]],
     later |-> [i \in DOMAIN y.later |-> y.later[i][1]], tasks |-> y.tasks, structs |-> y.structs,
     peers |-> y.peers, inits |-> y.inits, apps |-> y.apps, search |-> y.search,
     log |-> r.log, res |-> r.res, info |-> r.info]
XInit(cfg) == x = Fresh(cfg) /\ obs = See(x, Nothing)
XDo(op) == x' = Act(x, op) /\ obs' = See(x', IF op.k = "run" THEN Run(x) ELSE Nothing)

(* Nothing's registered twice or for a class that isn't there. *)
Unique == /\ \A l \in {x.conns \o x.later, x.tasks, x.structs, x.peers} :
                 \A i, j \in DOMAIN l : i # j => l[i][1] # l[j][1]
          /\ \A i, j \in DOMAIN x.facs : i # j => x.facs[i].n # x.facs[j].n
          /\ \A l \in {x.tasks, x.structs} : \A i \in DOMAIN l : \E j \in DOMAIN x.facs : x.facs[j].n = l[i][2]
(* All that is described is there. *)
Mine(s) == {i \in DOMAIN x.items : x.items[i].s = s /\ x.items[i].f \in ToSet(x.files)}
Complete == (x.st # "edit" /\ x.ok) =>
    /\ \A i \in Mine("task") : x.items[i].n \in Names(x.tasks)
    /\ \A i \in Mine("struct") : x.items[i].n \in Names(x.structs)
    /\ \A i \in Mine("process") : x.items[i].n \in Names(x.peers)
    /\ \A i \in Mine("client") : \E n \in Names(x.conns) \cup Names(x.later) : n[Len(n)] = x.items[i].n
    /\ \A i \in Mine("port") : \E j \in DOMAIN x.ports : x.ports[j][1] = x.items[i].n
=============================================================================
