-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* C01: a primitive - one stored value, one time stamp and an ordered set *)
(* of change callbacks (some one-time), which may register and remove     *)
(* callbacks while they run.                                               *)
(*                                                                         *)
(* Every public way of updating the value (value=, set_value, call,        *)
(* increment, toggle/set/clear, decoding from bytes or a stream) is the    *)
(* single action Set; they only differ in how the requested value is       *)
(* formed.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES kind,  \* the storage type
          val,   \* stored value
          ts,    \* time stamp of the latest update
          cbs,   \* registered callbacks in registration order: [id, once, act]
          next,  \* next callback identifier
          obs    \* what the latest operation let its caller observe

pvars == <<kind, val, ts, cbs, next>>

Bits == [int8 |-> 8, uint8 |-> 8, int16 |-> 16, uint16 |-> 16]
Pow2 == [n \in {7, 8, 15, 16} |-> IF n = 7 THEN 128 ELSE IF n = 8 THEN 256
                        ELSE IF n = 15 THEN 32768 ELSE 65536]

(* What the storage type makes of a requested value.  Narrow integers wrap; *)
(* wide integers are only driven inside their range; booleans are 0 or 1;  *)
(* floats are opaque tokens whose representable neighbour q is supplied.   *)
Store(k, v, q) ==
    IF k \in {"uint8", "uint16"} THEN v % Pow2[Bits[k]]
    ELSE IF k \in {"int8", "int16"} THEN
        LET u == v % Pow2[Bits[k]] IN
        IF u >= Pow2[Bits[k] - 1] THEN u - Pow2[Bits[k]] ELSE u
    ELSE IF k = "bool" THEN IF v = 0 THEN 0 ELSE 1
    ELSE IF k \in {"half", "float", "double"} THEN q
    ELSE v

Remove(cs, i) == SelectSeq(cs, LAMBDA c : c.id # i)
Has(cs, i) == \E n \in 1..Len(cs) : cs[n].id = i
Get(cs, i) == CHOOSE c \in {cs[n] : n \in 1..Len(cs)} : c.id = i

(* What a callback does while it runs. *)
React(st, act) ==
    IF act[1] = "rm" THEN [st EXCEPT !.cbs = Remove(@, act[2])]
    ELSE IF act[1] = "reg" THEN
        [st EXCEPT !.cbs = Append(@, [id |-> st.next, once |-> act[2],
                                      act |-> <<"none">>]),
                   !.next = @ + 1]
    ELSE st

(* Call the callbacks registered when the value changed, in order; skip    *)
(* those that were removed meanwhile; one-time callbacks are consumed.     *)
RECURSIVE Fire(_, _, _, _, _)
Fire(snap, st, old, new, now) ==
    IF snap = <<>> THEN st
    ELSE IF ~Has(st.cbs, Head(snap)) THEN Fire(Tail(snap), st, old, new, now)
    ELSE LET c  == Get(st.cbs, Head(snap))
             s1 == [st EXCEPT !.log = Append(@, <<c.id, old, new, new, now>>),
                              !.cbs = IF c.once THEN Remove(@, c.id) ELSE @]
         IN Fire(Tail(snap), React(s1, c.act), old, new, now)

Floats == {"half", "float", "double"}
Notifies(old, new) == old # new /\ (kind \in Floats => new # "nan")

Set(v, q, now, res) ==
    LET new  == Store(kind, v, q)
        snap == [n \in 1..Len(cbs) |-> cbs[n].id]
        st0  == [cbs |-> cbs, next |-> next, log |-> <<>>]
        st   == IF Notifies(val, new) THEN Fire(snap, st0, val, new, now)
                ELSE st0
    IN /\ val' = new
       /\ ts' = now
       /\ cbs' = st.cbs
       /\ next' = st.next
       /\ obs' = [val |-> new, ts |-> now, fired |-> st.log, res |-> res]
       /\ UNCHANGED kind

Register(once, act) ==
    /\ cbs' = Append(cbs, [id |-> next, once |-> once, act |-> act])
    /\ next' = next + 1
    /\ obs' = [val |-> val, ts |-> ts, fired |-> <<>>, res |-> next]
    /\ UNCHANGED <<kind, val, ts>>

Unregister(i) ==
    /\ cbs' = Remove(cbs, i)
    /\ obs' = [val |-> val, ts |-> ts, fired |-> <<>>, res |-> Has(cbs, i)]
    /\ UNCHANGED <<kind, val, ts, next>>

(* A copy has the same value and none of the callbacks: changing the copy  *)
(* is invisible here.                                                      *)
CopyAndChange(v) ==
    /\ obs' = [val |-> val, ts |-> ts, fired |-> <<>>, res |-> val]
    /\ UNCHANGED pvars

(* A primitive may have a scaling, from what's stored to what's meant: what *)
(* is meant is a + b * what is stored, as close as what can be stored gets. *)
Nearest(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE 0 - ((d - 2 * n) \div (2 * d))
Bound(k, v) ==
    LET lo == IF k \in {"int8", "int16"} THEN 0 - Pow2[Bits[k] - 1] ELSE 0
        hi == IF k \in {"int8", "int16"} THEN Pow2[Bits[k] - 1] - 1 ELSE Pow2[Bits[k]] - 1
    IN IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Meant(v, a, b) == a + b * v

(* The requested value of each public way to update. *)
Requested(o) ==
    IF o.k = "scaled" THEN IF kind \in Floats THEN o.v ELSE Bound(kind, Nearest(o.v - o.a, o.b))
    ELSE IF o.k = "increment" THEN val + o.v
    ELSE IF o.k = "toggle" THEN 1 - val
    ELSE IF o.k = "setbool" THEN 1
    ELSE IF o.k = "clear" THEN 0
    ELSE o.v

ResultOf(o) ==
    IF o.k \in {"call", "update", "increment"} THEN Store(kind, Requested(o), o.q)
    ELSE IF o.k = "scaled" /\ kind \notin Floats THEN Meant(Requested(o), o.a, o.b)
    ELSE "none"

Do(o) ==
    CASE o.k \in {"set_value", "value", "call", "update", "increment",
                  "toggle", "setbool", "clear", "scaled"}
              -> Set(Requested(o), o.q, o.now, ResultOf(o))
      [] o.k = "register"   -> Register(o.once, o.act)
      [] o.k = "enter"      -> Register(FALSE, o.act)
      [] o.k \in {"remove", "exit"} -> Unregister(o.id)
      [] o.k = "copy"       -> CopyAndChange(o.v)
      [] OTHER              -> FALSE

InitWith(k, v) ==
    /\ kind = k /\ val = v /\ ts = 0 /\ cbs = <<>> /\ next = 0
    /\ obs = [val |-> v, ts |-> 0, fired |-> <<>>, res |-> "none"]

-----------------------------------------------------------------------------
(* Properties, over every state / step of the specification. *)
Calls(i) == Cardinality({n \in 1..Len(obs.fired) : obs.fired[n][1] = i})

AtMostOncePerUpdate == \A n \in 1..Len(obs.fired) : Calls(obs.fired[n][1]) = 1
InOrder == \A m, n \in 1..Len(obs.fired) :
               m < n => obs.fired[m][1] < obs.fired[n][1]
Truthful == \A n \in 1..Len(obs.fired) :
                /\ obs.fired[n][2] # obs.fired[n][3]
                /\ obs.fired[n][3] = val
                /\ obs.fired[n][4] = val
Representable == val = Store(kind, val, val)
UniqueIds == \A m, n \in 1..Len(cbs) : m < n => cbs[m].id < cbs[n].id
FiredIffChanged ==
    /\ (val' = val) => obs'.fired = <<>>
    /\ (val' # val) => \A n \in 1..Len(cbs) :
           \/ \E m \in 1..Len(obs'.fired) : obs'.fired[m][1] = cbs[n].id
           \/ ~Has(cbs', cbs[n].id)
OnceConsumed ==
    \A n \in 1..Len(cbs) :
        (cbs[n].once /\ \E m \in 1..Len(obs'.fired) :
            obs'.fired[m][1] = cbs[n].id) => ~Has(cbs', cbs[n].id)
=============================================================================
