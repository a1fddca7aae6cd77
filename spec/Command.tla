------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* Channel commands (runtimepy.channel.environment.command): a line of     *)
(* text sets, toggles or gets one channel of an environment, or is handed  *)
(* to hooks; commands that are handed over are queued and handled in order *)
(* (runtimepy.mixins.async_command).  Environments are registered by name. *)
(*                                                                         *)
(* Numbers are counted in halves.  A line is [w, fl, c, xs]: the command   *)
(* word, its options, the channel's index (0: unknown name) or none at     *)
(* all (-1), and further words, [t, n, s]: numbers ("int", "half", n) or       *)
(* text ("word", s).                                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES c, obs
cvars == <<c, obs>>

Kinds == {"bool", "int", "float", "scaled", "enum", "flag", "field", "fenum", "benum"}
(* cfg.chans: [kind, cmd, name (sequence of letters)].  cfg.remote: a      *)
(* processor that hands everything over.  cfg.custom: number of custom     *)
(* commands registered, the second raises and the third issues a command.  *)
CFresh(cfg) == [cfg |-> cfg, v |-> [i \in 1..Len(cfg.chans) |-> 0], hooks |-> 0, calls |-> <<>>,
                q |-> <<>>, done |-> <<>>, res |-> <<>>, reg |-> <<0, 0, 0>>, sugg |-> <<>>]
Ok(reason) == <<TRUE, reason, 0>>
OkVal(t, n) == <<TRUE, t, n>>
No(reason) == <<FALSE, reason, 0>>
Chan(x, i) == x.cfg.chans[i]

(* What a word means for a channel: <<valid, value>>. *)
Bad == <<FALSE, 0>>
Bit(b) == <<TRUE, IF b THEN 2 ELSE 0>>
Enum == [x |-> 2, y |-> 4, z |-> 6]
BEnum == [on |-> 2, off |-> 0]
Means(k, w) ==
    CASE k = "bool" -> IF w.t = "word" /\ w.s \in {"true", "false", "TRUE"} THEN Bit(w.s # "false") ELSE Bad
      [] k = "int" -> IF w.t = "int" THEN <<TRUE, w.n>> ELSE Bad
      [] k \in {"float", "scaled"} -> IF w.t \in {"int", "half"} THEN <<TRUE, w.n>> ELSE Bad
      [] k = "enum" -> IF w.t = "word" /\ w.s \in DOMAIN Enum THEN <<TRUE, Enum[w.s]>>
                       ELSE IF w.t = "int" /\ \E e \in DOMAIN Enum : Enum[e] = w.n THEN <<TRUE, w.n>> ELSE Bad
      [] k = "benum" -> IF w.t = "word" /\ w.s \in DOMAIN BEnum THEN <<TRUE, BEnum[w.s]>>
                        ELSE IF w.t = "word" /\ w.s \in {"true", "false", "TRUE"} THEN Bit(w.s # "false") ELSE Bad
      [] k \in {"flag", "field"} ->
             IF w.t = "word" /\ w.s \in {"true", "false", "TRUE"} THEN Bit(w.s # "false")
             ELSE IF w.t = "int" THEN <<TRUE, IF k = "flag" THEN w.n % 4 ELSE w.n % 16>> ELSE Bad
      [] k = "fenum" -> IF w.t = "word" /\ w.s \in DOMAIN Enum THEN <<TRUE, Enum[w.s]>>
                        ELSE IF w.t = "int" /\ \E e \in DOMAIN Enum : Enum[e] = w.n THEN <<TRUE, w.n>> ELSE Bad
(* What getting a channel says. *)
NameOf(E, n) == IF \E e \in DOMAIN E : E[e] = n THEN OkVal(CHOOSE e \in DOMAIN E : E[e] = n, 0) ELSE OkVal("num", n)
Says(k, n) ==
    CASE k \in {"bool", "flag"} -> OkVal(IF n # 0 THEN "True" ELSE "False", 0)
      [] k \in {"int", "field", "float", "scaled"} -> OkVal("num", n)
      [] k \in {"enum", "fenum"} -> NameOf(Enum, n)
      [] k = "benum" -> NameOf(BEnum, n)

(* Hooks are told of what was done. *)
Hand(x, o, i) == LET call == <<o.w, o.c, i>> IN
    [x EXCEPT !.calls = @ \o [n \in 1..x.hooks |-> call], !.q = Append(@, call)]
Result(x, r) == [x EXCEPT !.res = r]
Toggled(k, n) == CASE k \in {"bool", "flag", "benum"} -> IF n = 0 THEN 2 ELSE 0
                   [] k = "field" -> 14 - n
                   [] k = "fenum" -> 6 - n
                   [] OTHER -> n
Toggles(k) == k \in {"bool", "benum", "flag", "field", "fenum"}
Words == {"set", "toggle", "get", "custom"}
Has(o, f) == \E j \in 1..Len(o.fl) : o.fl[j] = f
Handle(x, o) ==
    IF x.cfg.remote \/ Has(o, "remote") \/ o.w = "custom" THEN Result(Hand(x, o, 0), Ok(""))
    ELSE IF o.c = 0 THEN Result(x, No("nochannel"))
    ELSE LET k == Chan(x, o.c).kind IN
    IF o.w = "get" THEN Result(x, Says(k, x.v[o.c]))
    ELSE IF ~Chan(x, o.c).cmd /\ ~Has(o, "force") THEN Result(x, No("notcmd"))
    ELSE IF o.w = "toggle"
    THEN IF ~Toggles(k) THEN Result(x, No("notbool"))
         ELSE Result(Hand([x EXCEPT !.v[o.c] = Toggled(k, @)], o, o.c), Ok(""))
    ELSE IF o.xs = <<>> THEN Result(x, No("novalue"))
    ELSE LET m == Means(k, o.xs[1]) IN
         IF ~m[1] THEN Result(x, No("badvalue"))
         ELSE Result(Hand([x EXCEPT !.v[o.c] = m[2]], o, o.c), Ok(""))
(* A line that can't be understood does nothing. *)
Parses(o) == o.w \in Words /\ o.c >= 0 /\ ~Has(o, "junk")
Command(x, o) == IF Parses(o) THEN Handle(x, o) ELSE Result(x, No("parse"))

(* What was handed over is handled in the order it was; handling it may    *)
(* raise, and may issue further commands.                                  *)
Again == [w |-> "custom", fl |-> <<>>, c |-> 1, xs |-> <<>>]
RECURSIVE Drain(_)
Drain(x) ==
    IF x.q = <<>> THEN Result(x, Ok(""))
    ELSE LET h == Head(x.q)
             y == [x EXCEPT !.q = Tail(@)]
         IN IF h[1] # "custom" THEN Drain([y EXCEPT !.done = Append(@, h)])
            ELSE IF h[2] = 0 \/ h[2] > y.cfg.custom THEN Drain(y)
            ELSE LET z == [y EXCEPT !.done = Append(@, h)] IN
                 IF h[2] = 2 THEN Result(z, No("raised"))
                 ELSE IF h[2] = 3 THEN Drain(Hand(z, Again, 0))
                 ELSE Drain(z)

(* The shortest name that begins with what was typed, one that can be      *)
(* commanded if there is any (names are of different lengths).             *)
Begins(n, p) == Len(n) >= Len(p) /\ \A j \in 1..Len(p) : n[j] = p[j]
Shortest(x, S) == CHOOSE i \in S : \A j \in S : Len(Chan(x, i).name) <= Len(Chan(x, j).name)
Suggest(x, p) ==
    LET S == {i \in 1..Len(x.cfg.chans) : Begins(Chan(x, i).name, p)}
        T == {i \in S : Chan(x, i).cmd}
    IN IF p = <<>> \/ S = {} THEN 0 ELSE IF T = {} THEN Shortest(x, S) ELSE Shortest(x, T)

CStep(x, o) ==
    LET y == [x EXCEPT !.calls = <<>>, !.done = <<>>, !.sugg = <<>>] IN
    CASE o.k = "cmd" -> Command(y, o)
      [] o.k = "hook" -> Result([y EXCEPT !.hooks = @ + 1], <<>>)
      [] o.k = "drain" -> Drain(y)
      [] o.k = "sugg" -> Result([y EXCEPT !.sugg = <<Suggest(y, o.p)>>], <<>>)
      (* Environments by name. *)
      [] o.k = "reg" -> IF y.reg[o.n] \in {0, o.e} THEN Result([y EXCEPT !.reg[o.n] = o.e], Ok(""))
                        ELSE Result(y, No("taken"))
      [] o.k = "clear" -> Result([y EXCEPT !.reg = <<0, 0, 0>>], Ok(""))

CSeen(x) == [v |-> x.v, res |-> x.res, calls |-> x.calls, queue |-> Len(x.q), done |-> x.done,
             reg |-> x.reg, sugg |-> x.sugg]
CInit(cfg) == c = CFresh(cfg) /\ obs = CSeen(c)
CDo(o) == c' = CStep(c, o) /\ obs' = CSeen(c')

-----------------------------------------------------------------------------
(* A command that fails changes nothing and tells nobody, and nothing but  *)
(* the channel it names ever changes; a channel that can't be commanded    *)
(* only does so when forced.                                               *)
Only(o) ==
    /\ (o.k = "cmd" /\ ~obs'.res[1]) => c'.v = c.v /\ c'.q = c.q /\ c'.calls = <<>>
    /\ \A i \in 1..Len(c.v) : c'.v[i] # c.v[i] =>
          o.k = "cmd" /\ o.c = i /\ o.w \in {"set", "toggle"} /\ (Chan(c, i).cmd \/ Has(o, "force"))
          /\ ~c.cfg.remote /\ ~Has(o, "remote")
=============================================================================
