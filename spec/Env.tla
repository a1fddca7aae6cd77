-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* C07, C08: a channel environment - channels, bit fields and enumerations *)
(* under one registry of names and identifiers, typed and scaled access to *)
(* their values, and exporting and loading all of it.                      *)
(*                                                                         *)
(* Numbers are counted in eighths.  A stored value is [q, x]: x names a    *)
(* value that isn't such a number (the ends of wide integers, not a        *)
(* number, something huge), otherwise x is empty.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES cells,   \* storage: [kind, v]
          chans,   \* channels in order of creation: [n, id, c, e, cmd, desc, def, sc]
          groups,  \* bit fields by storage: [c, on, fs], fs: [n, ix, w, e, cmd, desc]
          names,   \* <<name, identifier>> in order of registration
          cur,     \* where the search for an unused identifier begins
          enums,   \* [n, id, kind, ps], ps: <<name, number>>
          fin,
          obs
evars == <<cells, chans, groups, names, cur, enums, fin>>

BadNames == {"", "a b", "x!", "a/b"}
Valid(n) == n \notin BadNames

Num(q) == [q |-> q, x |-> ""]
Tok(x) == [q |-> 0, x |-> x]
U == 8

Bits == [int8 |-> 8, uint8 |-> 8, int16 |-> 16, uint16 |-> 16,
         int32 |-> 32, uint32 |-> 32, int64 |-> 64, uint64 |-> 64]
Pow == [b \in {7, 8, 15, 16} |-> IF b = 7 THEN 128 ELSE IF b = 8 THEN 256
                                 ELSE IF b = 15 THEN 32768 ELSE 65536]
IsInt(k) == k \in DOMAIN Bits
Signed(k) == k \in {"int8", "int16", "int32", "int64"}
IsFloat(k) == k \in {"float", "double"}
Narrow(k) == IsInt(k) /\ Bits[k] <= 16

(* Without scaling, what a type keeps of a number: integers wrap. *)
Hold(k, v) ==
    IF k = "bool" THEN (IF v.x = "" /\ v.q = 0 THEN Num(0) ELSE Num(U))
    ELSE IF Narrow(k) THEN
        LET u == (v.q \div U) % Pow[Bits[k]] IN
        Num(U * (IF Signed(k) /\ u >= Pow[Bits[k] - 1] THEN u - Pow[Bits[k]] ELSE u))
    ELSE v

Clamp(k, v) ==
    LET lo == IF ~Signed(k) THEN Num(0)
              ELSE IF Narrow(k) THEN Num(0 - U * Pow[Bits[k] - 1]) ELSE Tok("min")
        hi == IF Narrow(k) THEN Num(U * ((IF Signed(k) THEN Pow[Bits[k] - 1] ELSE Pow[Bits[k]]) - 1))
              ELSE Tok("max")
    IN IF v.x = "huge" THEN hi
       ELSE IF v.x = "-huge" THEN lo
       ELSE IF lo.x = "" /\ v.q < lo.q THEN lo
       ELSE IF hi.x = "" /\ v.q > hi.q THEN hi
       ELSE v

(* num/den rounded to a whole number, halves to the even one. *)
RoundDiv(num, den) ==
    LET a == IF den < 0 THEN 0 - num ELSE num
        d == IF den < 0 THEN 0 - den ELSE den
        f == a \div d  r == a % d
    IN IF 2 * r < d THEN f ELSE IF 2 * r > d THEN f + 1
       ELSE IF f % 2 = 0 THEN f ELSE f + 1

Flip(x) == CASE x = "huge" -> "-huge" [] x = "-huge" -> "huge" [] OTHER -> x
Gain(sc) == sc[2]
(* Requested visible value to stored value. *)
Invert(k, v, sc) ==
    IF IsInt(k)
    THEN IF v.x # "" THEN Clamp(k, IF sc # <<>> /\ Gain(sc) < 0 THEN Tok(Flip(v.x)) ELSE v)
         ELSE Clamp(k, Num(U * (IF sc = <<>> THEN RoundDiv(v.q, U)
                                ELSE RoundDiv(v.q - U * sc[1], U * Gain(sc)))))
    ELSE IF sc = <<>> \/ k = "bool" THEN Hold(k, v)
    ELSE IF v.x # "" THEN Tok(IF Gain(sc) < 0 THEN Flip(v.x) ELSE v.x)
    ELSE Num((v.q - U * sc[1]) \div Gain(sc))
(* Stored value to visible value. *)
Apply(v, sc) ==
    IF sc = <<>> THEN v
    ELSE IF v.x # "" THEN Tok(IF Gain(sc) < 0 THEN Flip(v.x) ELSE v.x)
    ELSE Num(U * sc[1] + Gain(sc) * v.q)

-----------------------------------------------------------------------------
HasName(ns, n) == \E i \in 1..Len(ns) : ns[i][1] = n
HasId(ns, k) == \E i \in 1..Len(ns) : ns[i][2] = k
IdOf(ns, n) == ns[CHOOSE i \in 1..Len(ns) : ns[i][1] = n][2]
NameAt(ns, k) == ns[CHOOSE i \in 1..Len(ns) : ns[i][2] = k][1]
RECURSIVE NextFree(_, _)
NextFree(ns, c) == IF HasId(ns, c) THEN NextFree(ns, c + 1) ELSE c
RECURSIVE MaxId(_)
MaxId(ns) == IF ns = <<>> THEN 0
             ELSE LET r == MaxId(Tail(ns)) IN IF Head(ns)[2] > r THEN Head(ns)[2] ELSE r

(* "" when the key is unknown *)
Resolve(key) == IF key.n # "" THEN (IF HasName(names, key.n) THEN key.n ELSE "")
                ELSE IF HasId(names, key.i) THEN NameAt(names, key.i) ELSE ""
ChanAt(cs, n) == LET s == {i \in 1..Len(cs) : cs[i].n = n}
                 IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
(* <<group, field>> of an active field, or <<0, 0>> *)
FieldAt(gs, n) ==
    LET s == {p \in (1..Len(gs)) \X (1..9) :
                gs[p[1]].on /\ p[2] <= Len(gs[p[1]].fs) /\ gs[p[1]].fs[p[2]].n = n}
    IN IF s = {} THEN <<0, 0>> ELSE CHOOSE p \in s : TRUE
EnumAt(es, n) == LET s == {i \in 1..Len(es) : es[i].n = n}
                 IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

EnumName(e, v) == LET s == {i \in 1..Len(enums[e].ps) : v.x = "" /\ U * enums[e].ps[i][2] = v.q}
                  IN IF s = {} THEN "" ELSE enums[e].ps[CHOOSE i \in s : TRUE][1]
IntText == [x \in {"5", "-1", " 2 ", "300", "0", "1"} |->
    CASE x = "5" -> 5 [] x = "-1" -> -1 [] x = " 2 " -> 2 [] x = "300" -> 300
      [] x = "0" -> 0 [] x = "1" -> 1]
FloatText == [x \in {"2.5", "-0.5", "1e2"} |->
    CASE x = "2.5" -> 20 [] x = "-0.5" -> -4 [] x = "1e2" -> 800]
BoolText == [x \in {"true", "True", "false", "FALSE"} |-> IF x \in {"true", "True"} THEN 1 ELSE 0]

No == [ok |-> FALSE, v |-> Num(0), why |-> "ValueError"]
NoKey == [ok |-> FALSE, v |-> Num(0), why |-> "KeyError"]
Yes(v) == [ok |-> TRUE, v |-> v, why |-> ""]

(* What an enumeration makes of a text. *)
EnumText(e, t) ==
    LET s == {i \in 1..Len(enums[e].ps) : enums[e].ps[i][1] = t} IN
    IF s # {} THEN Yes(Num(U * enums[e].ps[CHOOSE i \in s : TRUE][2]))
    ELSE IF enums[e].kind = "int"
         THEN IF t \in DOMAIN IntText /\ EnumName(e, Num(U * IntText[t])) # ""
              THEN Yes(Num(U * IntText[t])) ELSE NoKey
         ELSE IF t \in DOMAIN BoolText THEN Yes(Num(U * BoolText[t])) ELSE NoKey

(* A requested value: [t: "i" "f" "b" "s" "x", q, s] *)
Plain(v) == IF v.t = "x" THEN Tok(v.s) ELSE Num(v.q)

ChanText(ch, t, scaled) ==
    LET k == cells[ch.c].kind IN
    IF ch.e # 0 THEN EnumText(ch.e, t)
    ELSE IF IsInt(k) /\ (ch.sc = <<>> \/ ~scaled)
         THEN IF t \in DOMAIN IntText THEN Yes(Num(U * IntText[t])) ELSE No
    ELSE IF IsInt(k) \/ IsFloat(k)
         THEN IF t \in DOMAIN IntText THEN Yes(Num(U * IntText[t]))
              ELSE IF t \in DOMAIN FloatText THEN Yes(Num(FloatText[t]))
              ELSE IF t = "nan" /\ IsFloat(k) THEN Yes(Tok("nan")) ELSE No
    ELSE IF t \in DOMAIN BoolText THEN Yes(Num(U * BoolText[t])) ELSE No

(* An integer's bits as a number 0..2^w-1, and writing some of them. *)
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
GetBits(v, ix, w) == (v \div P2(ix)) % P2(w)
PutBits(v, ix, w, b) == v - GetBits(v, ix, w) * P2(ix) + b * P2(ix)
FieldVal(f, c) == Num(U * GetBits(cells[c].v.q \div U, f.ix, f.w))

FieldReq(f, v) ==
    IF v.t = "s"
    THEN IF f.e # 0 THEN EnumText(f.e, v.s)
         ELSE IF v.s \in DOMAIN BoolText THEN Yes(Num(U * BoolText[v.s]))
         ELSE IF v.s \in DOMAIN IntText THEN Yes(Num(U * IntText[v.s])) ELSE No
    ELSE IF v.t = "f" THEN [No EXCEPT !.why = "AssertionError"]
    ELSE Yes(IF v.t = "x" THEN Num(0) ELSE Num(v.q))

-----------------------------------------------------------------------------
(* What is seen of a value: text that tells types apart. *)
Show(k, sc, v) ==
    IF k = "bool" /\ sc = <<>> THEN (IF v.q = 0 THEN "False" ELSE "True")
    ELSE IF v.x # "" THEN v.x
    ELSE (IF IsInt(k) /\ sc = <<>> THEN "i" ELSE "f") \o ToString(v.q)

ChanSee(ch, resolve, scaled) ==
    LET k == cells[ch.c].kind
        sc == IF scaled THEN ch.sc ELSE <<>>
        v == Apply(cells[ch.c].v, sc)
        nm == IF ch.e # 0 /\ resolve THEN EnumName(ch.e, v) ELSE ""
    IN IF nm # "" THEN "s" \o nm ELSE Show(k, sc, v)
FieldSee(f, c, resolve) ==
    LET v == FieldVal(f, c)
        nm == IF f.e # 0 /\ resolve THEN EnumName(f.e, v) ELSE ""
    IN IF nm # "" THEN "s" \o nm
       ELSE IF f.w = 1 /\ ~(f.e # 0 /\ resolve) THEN (IF v.q = 0 THEN "False" ELSE "True")
       ELSE "i" \o ToString(v.q)

EName(es, e) == IF e = 0 THEN "none" ELSE es[e].n
DefSee(k, d) == IF d.t = "none" THEN "none" ELSE Show(k, <<>>, Num(d.q))
Row(n) ==
    LET i == ChanAt(chans, n)  p == FieldAt(groups, n) IN
    IF p[1] # 0
    THEN LET g == groups[p[1]]  f == g.fs[p[2]] IN
         <<n, IdOf(names, n), "field", FieldSee(f, g.c, TRUE), FieldSee(f, g.c, FALSE),
           f.cmd, EName(enums, f.e), f.desc, f.ix, f.w>>
    ELSE IF i # 0
    THEN LET ch == chans[i] IN
         <<n, IdOf(names, n), cells[ch.c].kind, ChanSee(ch, TRUE, TRUE), ChanSee(ch, FALSE, FALSE),
           ch.cmd, EName(enums, ch.e), ch.desc, DefSee(cells[ch.c].kind, ch.def), ch.ui>>
    ELSE <<n, IdOf(names, n), "?">>
(* Names are in the order of their identifiers. *)
Rows == [i \in 1..Len(names) |-> Row(names[i][1])]
EnumRows(es) == [i \in 1..Len(es) |-> <<es[i].n, es[i].id, es[i].kind, es[i].ps>>]
View == <<Rows, EnumRows(enums), fin>>

Stay(res) == UNCHANGED evars /\ obs' = [res |-> res, all |-> View]
After(res) == obs' = [res |-> res, all |-> View']

-----------------------------------------------------------------------------
(* Enumerations *)
MakeEnum(n, kind, ps) ==
    IF ~(n \notin {"", "a b"}) \/ EnumAt(enums, n) # 0 THEN Stay("AssertionError")
    ELSE LET id == Len(enums) + 1 IN
         /\ enums' = Append(enums, [n |-> n, id |-> id, kind |-> kind, ps |-> ps])
         /\ UNCHANGED <<cells, chans, groups, names, cur, fin>>
         /\ After(ToString(id))

(* Channels.  how: "any" or the type asked for; kind the type of storage;  *)
(* prim: storage that exists already (0: none); init: its first value;     *)
(* def: [t, q] a default; e: enumeration name, "none" or one that is       *)
(* missing.                                                                *)
TypeOf(k) == IF k = "bool" THEN "bool" ELSE IF IsInt(k) THEN "int" ELSE "float"
DefFits(k, d) == d.t = "none" \/ (IF k = "bool" THEN d.t = "b" ELSE IF IsInt(k) THEN d.t \in {"i", "b"} ELSE d.t = "f")
MakeChan(o) ==
    LET k == IF o.prim # 0 THEN cells[o.prim].kind ELSE o.kind
        e == EnumAt(enums, o.e)
        c == IF o.prim # 0 THEN o.prim ELSE Len(cells) + 1
        id == IF HasName(names, o.n) THEN IdOf(names, o.n) ELSE NextFree(names, cur)
    IN IF o.how # "any" /\ TypeOf(k) # o.how THEN Stay("AssertionError")
       ELSE IF fin THEN Stay("AssertionError")
       ELSE IF o.e # "none" /\ e = 0 THEN Stay("KeyError")
       ELSE IF ~Valid(o.n) \/ ChanAt(chans, o.n) # 0 \/ ~DefFits(k, o.def)
       THEN Stay("AssertionError")
       ELSE LET base == IF o.prim # 0 THEN cells ELSE Append(cells, [kind |-> k, v |-> Num(0), sc |-> o.sc])
            IN /\ cells' = IF o.def.t = "none" THEN base
                           ELSE [base EXCEPT ![c].v = Hold(k, Num(o.def.q))]
               /\ chans' = Append(chans, [n |-> o.n, id |-> id, c |-> c, e |-> e, cmd |-> o.cmd,
                                          desc |-> o.desc, def |-> o.def, sc |-> IF o.prim # 0 THEN cells[o.prim].sc ELSE o.sc, ui |-> o.ui])
               /\ names' = Append(names, <<o.n, id>>)
               /\ cur' = id
               /\ UNCHANGED <<groups, enums, fin>>
               /\ After(ToString(id))
(* New storage (a primitive of the caller's). *)
MakeCell(kind, v) ==
    /\ cells' = Append(cells, [kind |-> kind, v |-> Hold(kind, Num(v)), sc |-> <<>>])
    /\ UNCHANGED <<chans, groups, names, cur, enums, fin>> /\ After("ok")

(* A bit field over some storage; only seen when finalized. *)
GroupAt(gs, c) == LET s == {i \in 1..Len(gs) : gs[i].c = c /\ ~gs[i].on}
                  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
MakeField(o) ==
    LET f == [n |-> o.n, ix |-> o.ix, w |-> o.w, e |-> EnumAt(enums, o.e), cmd |-> o.cmd, desc |-> o.desc]
        g == GroupAt(groups, o.prim)
    IN /\ groups' = IF g = 0 THEN Append(groups, [c |-> o.prim, on |-> FALSE, fs |-> <<f>>])
                    ELSE [groups EXCEPT ![g].fs = Append(@, f)]
       /\ UNCHANGED <<cells, chans, names, cur, enums, fin>> /\ After("ok")

RECURSIVE Register(_, _, _)
Register(ns, c, new) ==
    IF new = <<>> THEN [ns |-> ns, c |-> c]
    ELSE IF HasName(ns, Head(new)) THEN Register(ns, c, Tail(new))
    ELSE LET id == NextFree(ns, c) IN Register(Append(ns, <<Head(new), id>>), id, Tail(new))
RECURSIVE FieldNames(_)
FieldNames(gs) == IF gs = <<>> THEN <<>>
    ELSE (IF Head(gs).on THEN <<>> ELSE [i \in 1..Len(Head(gs).fs) |-> Head(gs).fs[i].n]) \o FieldNames(Tail(gs))
DoFinalize ==
    LET r == Register(names, cur, FieldNames(groups)) IN
    /\ groups' = [i \in 1..Len(groups) |-> [groups[i] EXCEPT !.on = TRUE]]
    /\ names' = r.ns /\ cur' = r.c /\ fin' = TRUE
    /\ UNCHANGED <<cells, chans, enums>>
Finalize(strict) ==
    IF strict /\ fin THEN Stay("AssertionError")
    ELSE DoFinalize /\ After("ok")

-----------------------------------------------------------------------------
(* Setting one value: the new cells, or why not. *)
SetOne(cs, key, v, scaled) ==
    LET n == Resolve(key)  p == FieldAt(groups, n)  i == ChanAt(chans, n) IN
    IF n # "" /\ p[1] # 0
    THEN LET g == groups[p[1]]  f == g.fs[p[2]]  r == FieldReq(f, v) IN
         IF ~r.ok THEN [cs |-> cs, res |-> r.why]
         ELSE [cs |-> [cs EXCEPT ![g.c].v =
                  Num(U * PutBits(@.q \div U, f.ix, f.w, (r.v.q \div U) % P2(f.w)))],
               res |-> "ok"]
    ELSE IF n = "" \/ i = 0 THEN [cs |-> cs, res |-> "KeyError"]
    ELSE LET ch == chans[i]  k == cs[ch.c].kind
             r == IF v.t = "s" THEN ChanText(ch, v.s, scaled) ELSE Yes(Plain(v))
         IN IF ~r.ok THEN [cs |-> cs, res |-> r.why]
            ELSE [cs |-> [cs EXCEPT ![ch.c].v =
                     IF scaled THEN Invert(k, r.v, ch.sc) ELSE Hold(k, r.v)],
                  res |-> "ok"]
Set(o) ==
    LET r == SetOne(cells, o.key, o.v, o.scaled) IN
    /\ cells' = r.cs /\ UNCHANGED <<chans, groups, names, cur, enums, fin>> /\ After(r.res)

(* apply: a map of values; an error stops it. *)
RECURSIVE SetMany(_, _)
SetMany(st, vs) ==
    IF vs = <<>> \/ st.res # "ok" THEN st
    ELSE SetMany(SetOne(st.cs, Head(vs).key, Head(vs).v, TRUE), Tail(vs))
Assign(vs) ==
    LET r == SetMany([cs |-> cells, res |-> "ok"], vs) IN
    /\ cells' = r.cs /\ UNCHANGED <<chans, groups, names, cur, enums, fin>> /\ After(r.res)

Add(key, amount) ==
    LET n == Resolve(key)  i == ChanAt(chans, n) IN
    IF n = "" \/ i = 0 \/ ~IsInt(cells[chans[i].c].kind) THEN Stay("KeyError")
    ELSE LET ch == chans[i]  k == cells[ch.c].kind
             v == IF Narrow(k) THEN Hold(k, Num(cells[ch.c].v.q + U * amount))
                  ELSE IF cells[ch.c].v.x # "" THEN cells[ch.c].v
                  ELSE Num(cells[ch.c].v.q + U * amount)
         IN /\ cells' = [cells EXCEPT ![ch.c].v = v]
            /\ UNCHANGED <<chans, groups, names, cur, enums, fin>>
            /\ After(Show(k, <<>>, v))

(* Everything there is to ask about a key. *)
Ask(o) ==
    LET n == Resolve(o.key)  p == FieldAt(groups, n)  i == ChanAt(chans, n)
        field == n # "" /\ p[1] # 0
        chan == n # "" /\ i # 0
        typ == IF chan THEN TypeOf(cells[chans[i].c].kind) ELSE "none"
    IN Stay(CASE o.how = "exists" -> IF field \/ chan THEN "True" ELSE "False"
              [] o.how = "what" -> IF chan THEN "channel" ELSE IF field THEN "field" ELSE "none"
              [] o.how = "get_int" -> IF typ = "int" THEN ToString(chans[i].id) ELSE "KeyError"
              [] o.how = "get_bool" -> IF typ = "bool" THEN ToString(chans[i].id) ELSE "KeyError"
              [] o.how = "get_float" -> IF typ = "float" THEN ToString(chans[i].id) ELSE "KeyError"
              [] o.how = "unscaled" -> IF field THEN FieldSee(groups[p[1]].fs[p[2]], groups[p[1]].c, TRUE)
                                       ELSE IF chan THEN ChanSee(chans[i], TRUE, FALSE) ELSE "KeyError"
              [] o.how = "scaled" -> IF field THEN FieldSee(groups[p[1]].fs[p[2]], groups[p[1]].c, FALSE)
                                     ELSE IF chan THEN ChanSee(chans[i], FALSE, TRUE) ELSE "KeyError")

SetDefault(n, d) ==
    LET i == ChanAt(chans, n) IN
    IF i = 0 THEN Stay("KeyError")
    ELSE /\ chans' = [chans EXCEPT ![i].def = d]
         /\ UNCHANGED <<cells, groups, names, cur, enums, fin>>
         /\ After(ToString(Len(SelectSeq(chans', LAMBDA c : c.def.t # "none"))))

-----------------------------------------------------------------------------
(* Export (which finalizes) and load.  The loaded environment has channels *)
(* and fields over storage of their own, without scaling; a value without  *)
(* text in the exported data (not a number) is left at the default.        *)
RECURSIVE FieldRaw(_, _, _)
FieldRaw(fs, v, acc) ==
    IF fs = <<>> THEN acc
    ELSE FieldRaw(Tail(fs), v, acc + GetBits(v, Head(fs).ix, Head(fs).w) * P2(Head(fs).ix))
Loaded(ch, cs) ==
    LET k == cs[ch.c].kind
        v == Apply(cs[ch.c].v, ch.sc)
    IN IF v.x = "nan" THEN (IF ch.def.t = "none" THEN Num(0) ELSE Num(ch.def.q))
       ELSE Invert(k, v, <<>>)
Reload(final) ==
    LET r == Register(names, cur, FieldNames(groups))
        nch == Len(chans)
    IN /\ cells' = [i \in 1..nch |-> [kind |-> cells[chans[i].c].kind, v |-> Loaded(chans[i], cells), sc |-> <<>>]]
                   \o [g \in 1..Len(groups) |->
                         [kind |-> cells[groups[g].c].kind,
                          v |-> Num(U * FieldRaw(groups[g].fs, cells[groups[g].c].v.q \div U, 0))]]
       /\ chans' = [i \in 1..nch |-> [chans[i] EXCEPT !.c = i, !.sc = <<>>]]
       /\ groups' = [g \in 1..Len(groups) |-> [groups[g] EXCEPT !.c = nch + g, !.on = TRUE]]
       /\ names' = r.ns
       /\ cur' = MaxId(SelectSeq(r.ns, LAMBDA p : ChanAt(chans, p[1]) # 0)) + 1
       /\ fin' = final
       /\ UNCHANGED enums
       /\ After("equal")

Do(o) ==
    CASE o.k = "enum" -> MakeEnum(o.n, o.kind, o.ps)
      [] o.k = "chan" -> MakeChan(o)
      [] o.k = "cell" -> MakeCell(o.kind, o.v)
      [] o.k = "field" -> MakeField(o)
      [] o.k = "finalize" -> Finalize(o.strict)
      [] o.k = "set" -> Set(o)
      [] o.k = "apply" -> Assign(o.vs)
      [] o.k = "add" -> Add(o.key, o.v)
      [] o.k = "ask" -> Ask(o)
      [] o.k = "default" -> SetDefault(o.n, o.def)
      [] o.k = "reload" -> Reload(o.fin)
      [] OTHER -> FALSE

Init0 ==
    /\ cells = <<>> /\ chans = <<>> /\ groups = <<>> /\ names = <<>> /\ cur = 1
    /\ enums = <<>> /\ fin = FALSE
    /\ obs = [res |-> "", all |-> <<>>]

-----------------------------------------------------------------------------
OneName == \A i, j \in 1..Len(names) :
    (names[i][1] = names[j][1] \/ names[i][2] = names[j][2]) => i = j
Ordered == \A i, j \in 1..Len(names) : i < j => names[i][2] < names[j][2]
Known == /\ \A i \in 1..Len(chans) : HasName(names, chans[i].n) /\ IdOf(names, chans[i].n) = chans[i].id
         /\ \A g \in 1..Len(groups) : groups[g].on =>
                \A i \in 1..Len(groups[g].fs) : HasName(names, groups[g].fs[i].n)
InRange == \A i \in 1..Len(cells) :
    LET k == cells[i].kind  v == cells[i].v IN
    Narrow(k) => v.x = "" /\ v.q % U = 0 /\ Hold(k, v) = v
=============================================================================
