----------------------------- MODULE BitFields -----------------------------
(***************************************************************************)
(* C06: bit fields and flags over one unsigned integer.                    *)
(*                                                                         *)
(* Integers are written as sequences of bits, least significant first;     *)
(* `neg' continues them to the left with ones (two's complement).          *)
(* Index 9999: not given.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES n,       \* width of the underlying integer
          raw,     \* its bits
          cur,     \* where automatic allocation continues
          ents,    \* fields and padding, in order of allocation
          fin,     \* no more allocation
          twin,    \* <<>> or the state of a copy
          obs
bvars == <<n, raw, cur, ents, fin, twin>>

BadNames == {"", "a b", "x!", "a/b"}
Valid(x) == x \notin BadNames

Zero(k) == [i \in 1..k |-> 0]
(* The low w bits of a value. *)
Low(v, neg, w) == [i \in 1..w |-> IF i <= Len(v) THEN v[i] ELSE neg]
Slice(r, ix, w) == [i \in 1..w |-> r[ix + i]]
Put(r, ix, bits) == [i \in 1..Len(r) |->
    IF i > ix /\ i <= ix + Len(bits) THEN bits[i - ix] ELSE r[i]]
Full(bits, k) == Low(bits, 0, k)

Taken(es, b) == \E i \in 1..Len(es) : es[i].ix <= b /\ b < es[i].ix + es[i].w
HasName(es, x) == \E i \in 1..Len(es) : es[i].t = "f" /\ es[i].n = x
AtIndex(es, ix) == {i \in 1..Len(es) : es[i].ix = ix}

(* A place for w bits: refused unless every bit exists and is unused. *)
Fits(r, es, f, ix, w) ==
    ~f /\ ix >= 0 /\ \A b \in ix..(ix + w - 1) : b < Len(r) /\ ~Taken(es, b)

(* Add one field or pad, with an initial value. *)
Add(st, e, v, neg) ==
    LET ix == IF e.ix = 9999 THEN st.cur ELSE e.ix
        ok == /\ st.ok /\ Fits(st.raw, st.ents, st.fin, ix, e.w)
              /\ (e.t = "f" => Valid(e.n) /\ ~HasName(st.ents, e.n))
        bits == Low(v, neg, e.w)
    IN IF ~ok THEN [st EXCEPT !.ok = FALSE]
       ELSE [ok |-> TRUE, fin |-> st.fin,
             raw |-> Put(st.raw, ix, bits),
             cur |-> IF ix >= st.cur THEN ix + e.w ELSE st.cur,
             ents |-> Append(st.ents, [e EXCEPT !.ix = ix,
                                       !.pad = IF e.t = "p" THEN bits ELSE <<>>])]
State == [ok |-> TRUE, fin |-> fin, raw |-> raw, cur |-> cur, ents |-> ents]

Where(e, k) == [i \in 1..k |-> IF i > e.ix /\ i <= e.ix + e.w THEN 1 ELSE 0]
EntView(r, e) ==
    IF e.t = "p" THEN <<"pad", e.ix, e.w, Full(e.pad, Len(r))>>
    ELSE <<e.n, e.ix, e.w, Full(Slice(r, e.ix, e.w), Len(r)),
           e.cmd, e.enum, e.desc, Where(e, Len(r))>>
View(r, es, f) == <<r, [i \in 1..Len(es) |-> EntView(r, es[i])], f>>

Change(a, b) == IF a = b THEN <<>> ELSE << <<a, b>> >>
See(res, st, chg, tw) ==
    obs' = [res |-> res, all |-> View(st.raw, st.ents, st.fin), chg |-> chg, twin |-> tw]
TwinView(tw) == IF tw = <<>> THEN <<>> ELSE View(tw[1].raw, tw[1].ents, tw[1].fin)
Become(res, st, chg) ==
    /\ raw' = st.raw /\ cur' = st.cur /\ ents' = st.ents /\ fin' = st.fin
    /\ UNCHANGED <<n, twin>>
    /\ See(res, st, chg, TwinView(twin))
Refuse(res) == /\ UNCHANGED bvars /\ See(res, State, <<>>, TwinView(twin))

(* flag, field, pad.  Padding writes its value, a new field doesn't. *)
Entry(o) == [t |-> IF o.k = "pad" THEN "p" ELSE "f", n |-> o.n, ix |-> o.ix, w |-> o.w,
             cmd |-> o.cmd, enum |-> o.enum, desc |-> o.desc, pad |-> <<>>]
New(o) ==
    IF o.k = "field" /\ o.w = 1 THEN Refuse("error")
    ELSE LET st == Add(State, Entry(o), o.v, 0)
             st2 == IF o.k = "pad" THEN st ELSE [st EXCEPT !.raw = raw]
         IN IF ~st.ok THEN Refuse("error")
            ELSE Become(ToString(st.ents[Len(st.ents)].ix), st2, Change(raw, st2.raw))

Finalize == Become("ok", [State EXCEPT !.fin = TRUE], <<>>)

(* A field by name (key.n # "") or by bit index. *)
Find(key) ==
    LET s == IF key.n # "" THEN {i \in 1..Len(ents) : ents[i].t = "f" /\ ents[i].n = key.n}
             ELSE AtIndex(ents, key.i)
    IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
(* get_field gives nothing for no field, refuses padding. *)
On(o) ==
    LET i == Find(o.key) IN
    IF i = 0 THEN Refuse("KeyError")
    ELSE IF ents[i].t = "p" THEN Refuse("error")
    ELSE LET e == ents[i]
             was == Slice(raw, e.ix, e.w)
             bits == CASE o.how = "get" -> was
                       [] o.how = "set" -> Low(o.v, o.neg, e.w)
                       [] o.how = "invert" -> [j \in 1..e.w |-> 1 - was[j]]
                       [] o.how = "raise" -> <<1>>
                       [] o.how = "lower" -> <<0>>
                       [] o.how = "flag" -> was
         IN IF o.how \in {"raise", "lower", "flag"} /\ e.w # 1 THEN Refuse("not a flag")
            ELSE LET r2 == Put(raw, e.ix, bits) IN
                 Become(CASE o.how \in {"raise", "lower"} -> "none"
                          [] o.how = "flag" -> IF was[1] = 1 THEN "True" ELSE "False"
                          [] OTHER -> ToString(Full(bits, n)),
                        [State EXCEPT !.raw = r2], Change(raw, r2))

(* The integer itself changes. *)
Raw(v) == Become("ok", [State EXCEPT !.raw = v], Change(raw, v))

(* What a new set of fields made of this one's data contains: bits outside *)
(* of fields are clear, padding has the value it was made with.            *)
RECURSIVE Built(_, _, _)
Built(st, es, src) ==
    IF es = <<>> THEN st
    ELSE Built(Add(st, Head(es),
                   IF Head(es).t = "p" THEN Head(es).pad ELSE Slice(src, Head(es).ix, Head(es).w), 0),
               Tail(es), src)
Empty == [ok |-> TRUE, fin |-> FALSE, raw |-> Zero(n), cur |-> 0, ents |-> <<>>]
Rebuilt == [Built(Empty, ents, raw) EXCEPT !.fin = fin]

Reload == Become("ok", Rebuilt, <<>>)
Copy == /\ twin' = <<Rebuilt>> /\ UNCHANGED <<n, raw, cur, ents, fin>>
        /\ See("ok", State, <<>>, TwinView(<<Rebuilt>>))
Swap == IF twin = <<>> THEN Refuse("none")
        ELSE /\ raw' = twin[1].raw /\ cur' = twin[1].cur /\ ents' = twin[1].ents
             /\ fin' = twin[1].fin /\ twin' = <<State>> /\ UNCHANGED n
             /\ See("ok", twin[1], <<>>, TwinView(<<State>>))

(* From data: items in order, names missing for padding; values that don't *)
(* fit their field are refused.                                            *)
Low0(v, w) == \A i \in 1..Len(v) : i > w => v[i] = 0
RECURSIVE Items(_, _)
Items(st, its) ==
    IF its = <<>> THEN st
    ELSE LET o == Head(its)
             e == [t |-> IF o.n = "" THEN "p" ELSE "f", n |-> o.n, ix |-> o.ix, w |-> o.w,
                   cmd |-> o.cmd, enum |-> IF o.n = "" THEN "none" ELSE o.enum,
                   desc |-> IF o.n = "" THEN "none" ELSE o.desc, pad |-> <<>>]
             s == IF Low0(o.v, o.w) THEN Add(st, e, o.v, 0) ELSE [st EXCEPT !.ok = FALSE]
         IN Items(s, Tail(its))
Load(its, f) ==
    LET st == Items(Empty, its) IN
    IF st.ok THEN Become("ok", [st EXCEPT !.fin = f], <<>>) ELSE Refuse("error")

Do(o) ==
    CASE o.k \in {"flag", "field", "pad"} -> New(o)
      [] o.k = "finalize" -> Finalize
      [] o.k = "on" -> On(o)
      [] o.k = "raw" -> Raw(o.v)
      [] o.k = "reload" -> Reload
      [] o.k = "copy" -> Copy
      [] o.k = "swap" -> Swap
      [] o.k = "load" -> Load(o.items, o.fin)
      [] OTHER -> FALSE

InitWith(k) ==
    /\ n = k /\ raw = Zero(k) /\ cur = 0 /\ ents = <<>> /\ fin = FALSE /\ twin = <<>>
    /\ obs = [res |-> "", all |-> <<>>, chg |-> <<>>, twin |-> <<>>]

-----------------------------------------------------------------------------
Disjoint == \A i, j \in 1..Len(ents) : i # j =>
    ents[i].ix + ents[i].w <= ents[j].ix \/ ents[j].ix + ents[j].w <= ents[i].ix
Inside == Len(raw) = n /\ \A i \in 1..Len(ents) : ents[i].ix >= 0 /\ ents[i].ix + ents[i].w <= n
UniqueNames == \A i, j \in 1..Len(ents) :
    ents[i].t = "f" /\ ents[j].t = "f" /\ ents[i].n = ents[j].n => i = j
(* Operating on a field leaves every bit outside of it alone: follows from *)
(* Put; stated over steps that keep the layout.                            *)
Frame == [][ (ents' = ents /\ n' = n /\ \E i \in 1..Len(ents) : TRUE) =>
             (Len(raw') = Len(raw)) ]_<<raw, ents>>
=============================================================================
