------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The HTTP server (runtimepy.net.server): what a request for a path is    *)
(* answered with - a file below one of the connection's search paths, a    *)
(* redirect, JSON data, an application, or a redirect to /404.html - and   *)
(* commands, which are posted.                                             *)
(*                                                                         *)
(* A path is the sequence of what's between its slashes.  The file system  *)
(* is a set of [at (from the scratch folder down), id (its content)].      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES x, obs

(* What a name is when it ends in ".md". *)
Md(n) == CASE n = "b.txt" -> "b.md" [] n = "b" -> "b.md" [] n = "b.md" -> "b.md"
           [] n = "a.txt" -> "a.md" [] n = "sub" -> "sub.md" [] n = "r1" -> "r1.md"
           [] n = "a.b.txt" -> "a.b.md" [] n = "secret.txt" -> "secret.md" [] n = "e.txt" -> "e.md"
           [] n = "c.json" -> "c.md" [] n = "d.html" -> "d.md" [] OTHER -> n \o ".md"
Type(n) == CASE n \in {"a.txt", "b.txt", "a.b.txt", "secret.txt", "e.txt"} -> "text/plain"
             [] n = "c.json" -> "application/json" [] n = "d.html" -> "text/html"
             [] OTHER -> "application/octet-stream"

(* Paths as the file system sees them. *)
RECURSIVE Norm(_, _)
Norm(at, cs) ==
    IF cs = <<>> THEN at
    ELSE LET c == Head(cs) IN
         CASE c \in {"", "."} -> Norm(at, Tail(cs))
           [] c = ".." -> Norm(IF at = <<>> THEN <<"(above)">> ELSE SubSeq(at, 1, Len(at) - 1), Tail(cs))
           [] OTHER -> Norm(Append(at, c), Tail(cs))
Real(cs) == SelectSeq(cs, LAMBDA c : c \notin {"", "."})
Below(at, root) == Len(at) > Len(root) /\ SubSeq(at, 1, Len(root)) = root
Content(fs, at) ==
    IF \E f \in fs : f.at = at THEN (CHOOSE f \in fs : f.at = at).id ELSE -1

(* One search path: nothing above it can be had. *)
Look(fs, root, cs) ==
    LET at == Norm(root, cs)
        name == IF at = <<>> THEN "" ELSE at[Len(at)]
        md == IF at = <<>> THEN <<>> ELSE Append(SubSeq(at, 1, Len(at) - 1), Md(name))
    IN IF ~Below(at, root) THEN <<>>
       ELSE IF Content(fs, md) >= 0 THEN <<200, "md", Content(fs, md), "text/html">>
       ELSE IF Content(fs, at) >= 0 THEN <<200, "file", Content(fs, at), Type(name)>>
       ELSE <<>>
RECURSIVE File(_, _, _)
File(fs, roots, cs) ==
    IF roots = <<>> THEN <<>>
    ELSE LET r == Look(fs, Head(roots), cs) IN IF r # <<>> THEN r ELSE File(fs, Tail(roots), cs)

(* JSON data: nodes, each a dictionary or something else. *)
Nodes == <<
    [dict |-> TRUE, kids |-> <<<<"test", 2>>, <<"x", 4>>>>],
    [dict |-> TRUE, kids |-> <<<<"a", 3>>, <<"sub", 5>>>>],
    [dict |-> FALSE, kids |-> <<>>],
    [dict |-> TRUE, kids |-> <<<<"json", 6>>>>],
    [dict |-> FALSE, kids |-> <<>>],
    [dict |-> TRUE, kids |-> <<>>]>>
Kid(n, c) == LET s == SelectSeq(Nodes[n].kids, LAMBDA k : k[1] = c) IN IF s = <<>> THEN 0 ELSE s[1][2]
RECURSIVE Walk(_, _, _)
Walk(n, cs, done) ==
    IF cs = <<>> THEN <<200, "json", n, "">>
    ELSE IF Head(cs) = "" THEN Walk(n, Tail(cs), done)
    ELSE IF ~Nodes[n].dict THEN <<200, "noindex", done + 1, Head(cs)>>
    ELSE IF Kid(n, Head(cs)) = 0 THEN <<200, "nokey", done + 1, Head(cs)>>
    ELSE Walk(Kid(n, Head(cs)), Tail(cs), done + 1)
After(cs) == LET i == CHOOSE j \in 1..Len(cs) : cs[j] = "json" /\ \A k \in 1..(j - 1) : cs[k] # "json"
             IN SubSeq(cs, i + 1, Len(cs))

Index(seq, e) == IF \E i \in 1..Len(seq) : seq[i] = e
                 THEN CHOOSE i \in 1..Len(seq) : seq[i] = e /\ \A j \in 1..(i - 1) : seq[j] # e
                 ELSE 0
NotFound == <<307, "to", 0, "">>
Get(y, c, cs) ==
    LET f == File(y.fs, y.roots[c], cs)
        r == IF Len(cs) > 1 /\ cs[1] = "" /\ cs[2] # "" THEN 0 ELSE Index([i \in 1..Len(y.reds) |-> y.reds[i].from], Real(cs))
        a == Index(y.apps, cs)
    IN CASE Len(cs) > 0 /\ cs[1] \in {"favicon.ico", "favicon"} -> <<200, "icon", 0, "image/x-icon">>
         [] f # <<>> -> f
         [] r > 0 -> <<307, "to", y.reds[r].to, "">>
         [] "json" \in Range(cs) -> Walk(1, After(cs), 0)
         [] a > 0 -> <<200, "app", a, "text/html">>
         [] y.dflt -> <<200, "app", 99, "text/html">>
         [] OTHER -> NotFound

(* Commands: the environment, then the command's words. *)
Envs == <<"e1", "e2">>
Values == <<"1", "2", "3">>
Post(y, cs) ==
    LET ws == Real(cs)
        e == IF ws = <<>> THEN 0 ELSE Index(Envs, ws[1])
        good == Len(ws) = 4 /\ ws[2] = "set" /\ ws[3] = "v" /\ Index(Values, ws[4]) > 0
    IN IF e = 0 THEN [y EXCEPT !.res = <<200, "usage", Len(ws), "">>]
       ELSE IF good THEN [y EXCEPT !.val[e] = Index(Values, ws[4]), !.res = <<200, "cmd", Len(ws), "">>]
       ELSE [y EXCEPT !.res = <<200, "badcmd", Len(ws), "">>]

XFresh(cfg) ==
    [fs |-> {cfg.fs[i] : i \in 1..Len(cfg.fs)}, roots |-> <<<<<<"r1">>>>, <<<<"r1">>>>>>,
     reds |-> <<>>, apps |-> <<>>, dflt |-> cfg.dflt, val |-> <<0, 0>>, res |-> <<>>]
See(y) == [res |-> y.res, val |-> y.val]
Step(y, o) ==
    CASE o.k = "get" -> [y EXCEPT !.res = Get(y, o.c, o.p)]
      [] o.k = "post" -> Post(y, o.p)
      [] o.k = "other" -> [y EXCEPT !.res = IF o.m = "GET" THEN NotFound ELSE <<200, "none", 0, "">>]
      [] o.k = "write" -> [y EXCEPT !.fs = {f \in @ : f.at # o.at} \cup {[at |-> o.at, id |-> o.id]}]
      [] o.k = "remove" -> [y EXCEPT !.fs = {f \in @ : f.at # o.at}]
      [] o.k = "path" -> [y EXCEPT !.roots[o.c] = IF o.front THEN <<o.at>> \o @ ELSE Append(@, o.at)]
      [] o.k = "red" -> IF Index([i \in 1..Len(y.reds) |-> y.reds[i].from], Real(o.p)) > 0
                        THEN [y EXCEPT !.res = <<0, "taken", 0, "">>]
                        ELSE [y EXCEPT !.reds = Append(@, [from |-> Real(o.p), to |-> o.to])]
      [] o.k = "app" -> [y EXCEPT !.apps = IF Index(@, o.p) > 0 THEN @ ELSE Append(@, o.p)]
      [] o.k = "conn" -> [y EXCEPT !.roots[o.c] = <<<<"r1">>>>]
XDo(o) == /\ x' = Step([x EXCEPT !.res = <<>>], o)
          /\ obs' = See(x')
XInit(cfg) == x = XFresh(cfg) /\ obs = See(XFresh(cfg))

-----------------------------------------------------------------------------
(* Nothing is served that isn't below a search path. *)
Served(y) == y.res # <<>> /\ y.res[2] \in {"file", "md"}
Contained == Served(x) =>
    \E f \in x.fs : /\ f.id = x.res[3]
                    /\ \E c \in {1, 2} : \E i \in 1..Len(x.roots[c]) : Below(f.at, x.roots[c][i])
=============================================================================
