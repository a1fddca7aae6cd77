------------------------------ MODULE MCLayout ------------------------------
EXTENDS Layout, Json, TLC
CONSTANTS Cfgs, MaxOps
VARIABLE hist
Cfg(i) == Cfgs[i]
Root(c) == IF c = "types" THEN << <<"n">> >> ELSE <<>>
New(z, bare, o) == Do(z, [k |-> "new", bare |-> bare, o |-> o, id |-> 5]).z
Start(c) == CASE c = "message" -> New(Fresh(Root(c)), FALSE, "b")
              [] c = "little" -> New(Fresh(Root(c)), FALSE, "l")
              [] c = "array" -> New(Fresh(Root(c)), TRUE, "l")
              [] OTHER -> Fresh(Root(c))
MCInit == \E i \in 1..Len(Cfgs) : /\ y = Start(Cfgs[i])
                                  /\ obs = [r |-> Nothing, ms |-> <<>>]
                                  /\ hist = <<[k |-> "cfg", i |-> i]>>
C == Cfgs[hist[1].i]

Nm == "f" \o ToString(Len(hist))
Bytes(n) == [i \in 1..n |-> (i * 5 + Len(hist)) % 64]
M == 1..Len(y.ms)
Fixed(m) == \A j \in 1..Len(m.ss) : m.ss[j].t # "pre"
Size(m) == Len(BytesOf(m.ss))
Alike(a, b) == Len(a.ss) = Len(b.ss) /\ \A j \in 1..Len(a.ss) :
    /\ a.ss[j].t = b.ss[j].t /\ a.ss[j].o = b.ss[j].o /\ a.ss[j].z = b.ss[j].z /\ a.ss[j].b = b.ss[j].b
    /\ a.ss[j].t = "fix" => Len(a.ss[j].v) = Len(b.ss[j].v)
Plain(m) == \A p \in 1..Len(m.nm) : m.nm[p].k \in {"field", "enum", "bits"}

Build(m) ==
    {[k |-> "field", m |-> m, n |-> Nm, i |-> 2, e |-> 0, len |-> n] : n \in {1, 2}}
    \cup {[k |-> "chunk", m |-> m, n |-> Nm, t |-> "pre", o |-> "l", z |-> 2, v |-> <<65>>, len |-> 1]}
    \cup (IF y.ms[m].bare THEN {} ELSE
            {[k |-> "field", m |-> m, n |-> Nm, i |-> 0, e |-> 1, len |-> 1],
             [k |-> "bits", m |-> m, i |-> 1, fs |-> << <<Nm, 3, 0>>, <<Nm \o "b", 1, 3>> >>]})
Sets(m) == {[k |-> "set", m |-> m, p |-> p, it |-> 0,
             v |-> CASE y.ms[m].nm[p].k = "bits" -> <<1>>
                     [] y.ms[m].nm[p].k = "text" -> <<66, 67, 68>>
                     [] OTHER -> Bytes(y.ms[m].ss[y.ms[m].nm[p].s].z)] :
               p \in {q \in 1..Len(y.ms[m].nm) : y.ms[m].nm[q].k # "part"}}
           \cup {[k |-> "set", m |-> m, p |-> p, it |-> 2, v |-> <<>>] :
               p \in {q \in 1..Len(y.ms[m].nm) : y.ms[m].nm[q].e # 0}}
Uses(m) ==
    Sets(m)
    \cup (IF Fixed(y.ms[m]) /\ Size(y.ms[m]) > 0
          THEN {[k |-> "read", m |-> m, d |-> Bytes(Size(y.ms[m]) + 1)]} ELSE {})
    \cup {[k |-> "from", m |-> m, s |-> s] : s \in {q \in M \ {m} : Alike(y.ms[m], y.ms[q])}}
    \cup (IF Len(y.ms) >= 3 THEN {} ELSE
            {[k |-> "copy", m |-> m]}
            \cup (IF ~y.ms[m].bare /\ Plain(y.ms[m]) THEN {[k |-> "json", m |-> m, x |-> TRUE]} ELSE {})
            \cup {[k |-> "array", m |-> m]})
Nests == {[k |-> "nest", m |-> m, n |-> Nm, s |-> s, len |-> n] :
             m \in M, s \in {q \in M : Len(y.ms[q].ss) \in 1..3}, n \in {2}}
Frags(m) ==
    IF ~y.ms[m].bare \/ y.ms[m].head = 0 THEN {} ELSE
    {[k |-> "frag", m |-> m, a |-> 0, b |-> 1, by |-> FALSE],
     [k |-> "frag", m |-> m, a |-> y.ms[m].head - 1, b |-> -1, by |-> TRUE]}
    \cup {[k |-> "fset", m |-> m, f |-> f,
           d |-> Bytes(Len(BytesOf(SubSeq(y.ms[m].ss, y.ms[m].fr[f][1] + 1, y.ms[m].fr[f][2]))))] :
             f \in 1..Len(y.ms[m].fr)}
    \cup (IF y.ms[m].whole THEN {[k |-> "reset", m |-> m]} ELSE {})
T == <<"T">>
TypeOps ==
    {[k |-> "treg", n |-> n, ns |-> ns] : n \in {T, <<"T", "U">>}, ns \in {<<>>, << <<"a">> >>}}
    \cup {[k |-> "tenum", n |-> <<"U">>, ns |-> ns, e |-> 2] : ns \in {<<>>, << <<"a">> >>}}
    \cup {[k |-> "tadd", n |-> n, name |-> Nm, f |-> f, len |-> 1, x |-> x] :
             n \in {T, <<"a", ":", ":", "T">>}, f \in {<<"U">>, T, <<"b", "o", "o", "l">>}, x \in BOOLEAN}
    \cup {[k |-> "tfind", n |-> n, ns |-> ns, x |-> x] :
             n \in {T, <<"U">>}, ns \in {<<>>, << <<"a">> >>}, x \in BOOLEAN}
Ops == IF C = "types" THEN TypeOps
       ELSE UNION {Uses(m) : m \in M} \cup UNION {Build(m) : m \in M}
            \cup (IF C = "array" THEN UNION {Frags(m) : m \in M} ELSE {})
            \cup (IF Len(y.ms) >= 2 THEN Nests ELSE {})
MCNext == /\ Len(hist) <= MaxOps
          /\ \E o \in Ops : LDo(o) /\ hist' = Append(hist, o)
MCView == <<y, hist[1], Len(hist)>>
Emit == Len(hist') = MaxOps + 1 => PrintT("SCN " \o ToJson(hist'))
ConstCfgs == <<"message", "little", "array", "types">>
=============================================================================
