------------------------------- MODULE MCConf -------------------------------
EXTENDS Conf, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
MCInit == \E i \in 1..4 : /\ XInit([inc |-> i \in {2, 4}]) /\ hist = <<[k |-> "cfg", i |-> i]>>
Fs == {1, 2, 3}
Fac1(f, m, n, ns) == [s |-> "factory", f |-> f, m |-> m, n |-> n, ns |-> ns]
Items == (IF hist[1].i <= 2
    THEN {Fac1(f, 1, n, ns) : f \in {1, 2}, n \in {"ConnA"}, ns \in {<<"u">>}}
         \cup {Fac1(1, 1, "StructA", <<>>), Fac1(2, 1, "ConnA", <<>>)}
         \cup {Fac1(1, 2, "StructA", <<>>), Fac1(3, 1, "ConnA", <<>>)}
         \cup {[s |-> "client", f |-> f, n |-> n, t |-> "ConnA", c |-> 0, d |-> d, args |-> <<>>, kw |-> <<>>, md |-> ""] :
                  f \in {1, 2, 3}, n \in {"a"}, d \in BOOLEAN}
         \cup {[s |-> "struct", f |-> f, n |-> "s", t |-> "StructA", c |-> c, v |-> f] : f \in {1, 3}, c \in {1, 2}}
         \cup {[s |-> "builder", f |-> 1, n |-> "s", v |-> 3]}
    ELSE {Fac1(1, 1, "TaskA", <<>>), Fac1(2, 1, "TaskA", <<>>), Fac1(1, 1, "ConnA", <<>>)}
         \cup {[s |-> "task", f |-> f, n |-> n, t |-> t, c |-> 1, p |-> 0, dep |-> 0, v |-> 0, md |-> ""] :
                  f \in {1, 3}, n \in {"t"}, t \in {"TaskA", "ConnA"}}
         \cup {[s |-> "port", f |-> f, n |-> "p", v |-> v] : f \in {1, 3}, v \in {0, 2}}
         \cup {[s |-> "over", f |-> 2, n |-> "p", v |-> 3]}
         \cup {[s |-> "server", f |-> 1, t |-> "ConnA", c |-> 0, args |-> <<a>>, kw |-> <<>>] : a \in {<<"ref", "p">>, <<"host", "p">>}}
         \cup {[s |-> s, f |-> f, st |-> st] : s \in {"init", "app"}, f \in {1, 3}, st \in {<<"good">>, <<"one", "neg">>}})
Ops == {[k |-> "add", it |-> it] : it \in Items}
Order == <<"factory", "client", "server", "task", "struct", "builder", "port", "over", "init", "app">>
Num(s) == CHOOSE i \in DOMAIN Order : Order[i] = s
(* (Sections are kept apart: which of two was written first can't matter.) *)
Canon(o) == IF x.items = <<>> THEN TRUE ELSE Num(x.items[Len(x.items)].s) <= Num(o.it.s)
Paths == {<<1>>, <<1, 2>>, <<2, 1, 2>>, <<1, 1>>}
MCNext ==
    \/ /\ Len(hist) <= MaxOps
       /\ \E o \in Ops : Canon(o) /\ Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
    \/ /\ Len(hist) > 1
       /\ \E p \in Paths, w \in BOOLEAN :
             LET o == [k |-> "load", paths |-> p, wait |-> w]
             IN Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
    \/ LET o == [k |-> "run"] IN Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, hist[1], Len(hist)>>
Emit == (x'.st = "ran" \/ ~x'.ok) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
