------------------------------ MODULE MCServer ------------------------------
EXTENDS Server, Json, TLC
CONSTANTS Cfgs, MaxOps
VARIABLE hist
MCInit == \E i \in 1..Len(Cfgs) : XInit(Cfgs[i]) /\ hist = <<[k |-> "cfg", i |-> i]>>
One == {"a.txt", "b.md", "b.txt", "sub", "..", "", "secret.txt", "json", "test", "r1", "favicon.ico"}
Paths == {<<c>> : c \in One} \cup {<<c, d>> : c \in {"sub", "..", "json", "", "a.txt"}, d \in One}
         \cup {<<"sub", "..", "a.txt">>, <<"..", "r1", "a.txt">>, <<"sub", "..", "..", "secret.txt">>,
               <<"json", "test", "a">>, <<"json", "test", "z">>, <<"json", "test", "a", "b">>, <<"json", "x", "json">>}
Files == {<<"r1", "a.txt">>, <<"r1", "b.md">>, <<"r2", "a.txt">>, <<"r1", "sub", "a.txt">>}
Setup ==
    {[k |-> "write", at |-> a, id |-> i] : a \in Files, i \in {7}}
    \cup {[k |-> "remove", at |-> a] : a \in {f.at : f \in {g \in x.fs : g.at \in Files}}}
    \cup {[k |-> "path", c |-> 1, at |-> <<"r2">>, front |-> b] : b \in BOOLEAN}
    \cup {[k |-> "red", p |-> p, to |-> 1] : p \in {<<"a.txt">>, <<"old">>, <<"json">>}}
    \cup {[k |-> "app", p |-> p] : p \in {<<"">>, <<"sub">>, <<"old">>}}
Asks ==
    {[k |-> "get", c |-> c, p |-> p] : c \in {1}, p \in Paths \cup {<<"old">>, <<"old", "">>}}
    \cup {[k |-> "get", c |-> 2, p |-> <<"a.txt">>]}
    \cup {[k |-> "post", p |-> p] : p \in {<<"">>, <<"e1">>, <<"e1", "set", "v", "2">>, <<"e3", "set", "v", "1">>, <<"e2", "set", "w", "1">>}}
    \cup {[k |-> "other", m |-> m] : m \in {"GET", "POST"}}
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Setup \cup (IF Len(hist) = MaxOps THEN Asks ELSE {}) :
                XDo(o) /\ hist' = Append(hist, o)
MCView == <<[x EXCEPT !.res = <<>>], Len(hist)>>
Emit == Len(hist') = MaxOps + 1 => PrintT("SCN " \o ToJson(hist'))
F(a, i) == [at |-> a, id |-> i]
Base == <<F(<<"secret.txt">>, 1), F(<<"r1.md">>, 2), F(<<"r1", "a.txt">>, 3), F(<<"r1", "sub", "b.md">>, 4),
          F(<<"r2", "a.txt">>, 5), F(<<"r2", "sub">>, 6), F(<<"r2", "secret.txt">>, 8), F(<<"r1", "e.txt">>, 0)>>
ConstCfgs == <<[fs |-> Base, dflt |-> FALSE], [fs |-> Base, dflt |-> TRUE]>>
=============================================================================
