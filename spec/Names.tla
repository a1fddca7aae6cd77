-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* C05: two-way name/identifier mappings, name registries, item registries *)
(* and runtime enumerations.                                               *)
(*                                                                         *)
(* mode: "names"  a NameRegistry          "bools"  a BooleanRegistry       *)
(*       "ints"   an integer enumeration  "flags"  a boolean enumeration   *)
(*       "items"  a registry of enumerations                               *)
(* Identifiers are integers; booleans are written 0 and 1.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES mode,
          pairs,   \* <<name, id>> in registration order
          cur,     \* where the search for an unused identifier begins
          items,   \* "items": names that have an item, in order
          obs
nvars == <<mode, pairs, cur, items>>

BadNames == {"", "a b", "x!", "a,b"}
Valid(n) == n \notin BadNames

Names == {pairs[i][1] : i \in 1..Len(pairs)}
Ids == {pairs[i][2] : i \in 1..Len(pairs)}
IdOf(ps, n) == LET s == {i \in 1..Len(ps) : ps[i][1] = n}
               IN IF s = {} THEN "none" ELSE ToString(ps[CHOOSE i \in s : TRUE][2])
NameOf(ps, k) == LET s == {i \in 1..Len(ps) : ps[i][2] = k}
                 IN IF s = {} THEN "none" ELSE ps[CHOOSE i \in s : TRUE][1]
HasName(ps, n) == \E i \in 1..Len(ps) : ps[i][1] = n
HasId(ps, k) == \E i \in 1..Len(ps) : ps[i][2] = k
IdNum(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]

(* Setting pairs one by one; stops at the first that is invalid or breaks  *)
(* the one-to-one correspondence.                                          *)
RECURSIVE SetAll(_, _)
SetAll(ps, new) ==
    IF new = <<>> THEN [ps |-> ps, ok |-> TRUE]
    ELSE LET n == Head(new)[1]  k == Head(new)[2] IN
         IF ~Valid(n) THEN [ps |-> ps, ok |-> FALSE]
         ELSE IF HasName(ps, n) /\ HasId(ps, k) /\ IdNum(ps, n) = k
              THEN SetAll(ps, Tail(new))
         ELSE IF HasName(ps, n) \/ HasId(ps, k) THEN [ps |-> ps, ok |-> FALSE]
         ELSE SetAll(Append(ps, <<n, k>>), Tail(new))

RECURSIVE NextFree(_, _)
NextFree(ps, c) == IF HasId(ps, c) THEN NextFree(ps, c + 1) ELSE c

RECURSIVE MaxId(_)
MaxId(ps) == IF ps = <<>> THEN 0
             ELSE LET r == MaxId(Tail(ps)) IN IF Head(ps)[2] > r THEN Head(ps)[2] ELSE r

(* Everything that can be asked of a mapping, for the identifiers and      *)
(* names of interest.                                                      *)
AskIds == <<-1, 0, 1, 2, 3, 5, 9>>
AskNames == <<"a", "b", "C", "x.y", "on", "5", "zz">>
View(ps) == <<ps,
              [i \in 1..Len(AskIds) |-> NameOf(ps, AskIds[i])],
              [i \in 1..Len(AskNames) |-> IdOf(ps, AskNames[i])]>>

Set(res, ps) ==
    obs' = [res |-> res, all |-> View(ps)]

Keep == UNCHANGED <<mode, items>>

(* register_name(n) / register_int(n): any unused identifier would do; the *)
(* code takes the next one.  id = 9999: none given.                        *)
RegName(ps, c, n, id) ==
    IF HasName(ps, n)
    THEN IF id # 9999 /\ IdNum(ps, n) # id
         THEN [ps |-> ps, c |-> c, res |-> "error"]
         ELSE [ps |-> ps, c |-> c, res |-> ToString(IdNum(ps, n))]
    ELSE IF ~Valid(n) THEN [ps |-> ps, c |-> c, res |-> "none"]
    ELSE LET c2 == IF id = 9999 THEN NextFree(ps, c) ELSE c
             k == IF id = 9999 THEN c2 ELSE id
         IN IF HasId(ps, k) THEN [ps |-> ps, c |-> c2, res |-> "none"]
            ELSE [ps |-> Append(ps, <<n, k>>), c |-> c2, res |-> ToString(k)]

Register(n, id) ==
    LET r == RegName(pairs, cur, n, id) IN
    /\ pairs' = r.ps /\ cur' = r.c /\ Set(r.res, r.ps) /\ Keep

RegisterBool(n, v) ==
    LET ok == Valid(n) /\ ~HasName(pairs, n) /\ ~HasId(pairs, v)
        ps == IF ok THEN Append(pairs, <<n, v>>) ELSE pairs
    IN /\ pairs' = ps /\ Set(IF ok THEN "yes" ELSE "no", ps)
       /\ UNCHANGED cur /\ Keep

(* load_key_to_name / load_name_to_key on a live mapping *)
Load(new) ==
    LET r == SetAll(pairs, new) IN
    /\ pairs' = r.ps /\ Set(IF r.ok THEN "ok" ELSE "error", r.ps)
    /\ UNCHANGED cur /\ Keep

(* A new mapping from such data (or from an exported dictionary).  In      *)
(* dictionary form identifier keys come before name keys.                  *)
Fresh(new) ==
    LET r == SetAll(<<>>, new) IN
    /\ IF r.ok
       THEN /\ pairs' = r.ps /\ Set("ok", r.ps)
            /\ cur' = IF mode \in {"bools", "flags"} THEN 1
                      ELSE IF MaxId(r.ps) >= 1 THEN MaxId(r.ps) + 1 ELSE 1
       ELSE UNCHANGED <<pairs, cur>> /\ Set("error", pairs)
    /\ Keep

Reload == Fresh(pairs)

(* Enumeration look-ups.  v is [t |-> "s"/"i"/"b", v |-> text or number].  *)
Digits == [x \in {"5", "-1", "0", "1", " 2 "} |->
             CASE x = "5" -> 5 [] x = "-1" -> -1 [] x = "0" -> 0 [] x = "1" -> 1 [] x = " 2 " -> 2]
Truth == [x \in {"true", "TRUE", "false", "False"} |->
             CASE x \in {"true", "TRUE"} -> 1 [] OTHER -> 0]
IsTruth(x) == x \in DOMAIN Truth
AsStr(ps, v) == IF v.t = "s" THEN (IF HasName(ps, v.v) THEN v.v ELSE "none")
                ELSE NameOf(ps, v.v)
AsInt(ps, v) ==
    IF v.t = "s"
    THEN IF HasName(ps, v.v) THEN IdOf(ps, v.v)
         ELSE IF v.v \in DOMAIN Digits /\ HasId(ps, Digits[v.v])
              THEN ToString(Digits[v.v]) ELSE "none"
    ELSE IF HasId(ps, v.v) THEN ToString(v.v) ELSE "none"
AsBool(ps, v) ==
    IF v.t = "s"
    THEN IF HasName(ps, v.v) THEN IdOf(ps, v.v)
         ELSE IF IsTruth(v.v) THEN ToString(Truth[v.v]) ELSE "none"
    ELSE IF HasId(ps, v.v) THEN ToString(v.v) ELSE "none"

Ask(how, v) ==
    /\ Set(CASE how = "as_str" -> AsStr(pairs, v)
             [] how = "get_str" -> LET r == AsStr(pairs, v) IN IF r = "none" THEN "KeyError" ELSE r
             [] how = "as_int" -> AsInt(pairs, v)
             [] how = "get_int" -> LET r == IF mode = "flags" THEN AsBool(pairs, v) ELSE AsInt(pairs, v)
                                   IN IF r = "none" THEN "KeyError" ELSE r
             [] how = "as_bool" -> AsBool(pairs, v)
             [] how = "get_bool" -> LET r == AsBool(pairs, v) IN IF r = "none" THEN "KeyError" ELSE r,
           pairs)
    /\ UNCHANGED <<pairs, cur>> /\ Keep

(* Registry of items.  An item carries its identifier; an identifier can   *)
(* be left to the registry.  bad: the item's data doesn't satisfy its      *)
(* schema (its name isn't registered either).                              *)
RECURSIVE ItemView(_, _)
ItemView(its, ps) == IF its = <<>> THEN <<>>
    ELSE << <<Head(its), IdOf(ps, Head(its))>> >> \o ItemView(Tail(its), ps)
SetItems(res, ps, its) == obs' = [res |-> res, all |-> <<View(ps), ItemView(its, ps)>>]
HasItem(its, n) == \E i \in 1..Len(its) : its[i] = n

Enum(n, id, bad) ==
    LET auto == id = 9999
        r1 == IF auto THEN RegName(pairs, cur, n, 9999)
              ELSE [ps |-> pairs, c |-> cur, res |-> "skip"]
    IN IF auto /\ r1.res = "none"
       THEN /\ pairs' = r1.ps /\ cur' = r1.c /\ SetItems("none", r1.ps, items)
            /\ UNCHANGED <<items, mode>>
       ELSE IF bad
       THEN /\ cur' = r1.c /\ SetItems("error", pairs, items)
            /\ UNCHANGED <<pairs, items, mode>>
       ELSE LET r2 == IF auto THEN r1 ELSE RegName(pairs, cur, n, id)
                good == r2.res \notin {"none", "error"} /\ ~HasItem(items, n)
                its == IF good THEN Append(items, n) ELSE items
            IN /\ pairs' = r2.ps /\ cur' = r2.c /\ items' = its
               /\ SetItems(IF r2.res = "error" THEN "error"
                           ELSE IF good THEN r2.res ELSE "none", r2.ps, its)
               /\ UNCHANGED mode

(* Look up an item by name or identifier. *)
Get(v) ==
    LET n == IF v.t = "s" THEN (IF HasName(pairs, v.v) THEN v.v ELSE "none")
             ELSE NameOf(pairs, v.v)
    IN /\ SetItems(IF n # "none" /\ HasItem(items, n) THEN n \o "/" \o IdOf(pairs, n) ELSE "none",
                   pairs, items)
       /\ UNCHANGED nvars

RECURSIVE ItemPairs(_, _)
ItemPairs(its, ps) == IF its = <<>> THEN <<>>
    ELSE << <<Head(its), IdNum(ps, Head(its))>> >> \o ItemPairs(Tail(its), ps)
(* Export the registry and create another one from the data. *)
ReloadItems ==
    LET ps == ItemPairs(items, pairs) IN
    /\ pairs' = ps /\ cur' = MaxId(ps) + 1
    /\ SetItems("ok", ps, items) /\ UNCHANGED <<mode, items>>

Do(o) ==
    CASE o.k = "register" -> Register(o.n, o.id)
      [] o.k = "register_bool" -> RegisterBool(o.n, o.v)
      [] o.k = "load" -> Load(o.pairs)
      [] o.k = "fresh" -> Fresh(o.pairs)
      [] o.k = "reload" -> Reload
      [] o.k = "ask" -> Ask(o.how, o.v)
      [] o.k = "enum" -> Enum(o.n, o.id, o.bad)
      [] o.k = "get" -> Get(o.v)
      [] o.k = "reload_items" -> ReloadItems
      [] OTHER -> FALSE

InitWith(m) ==
    /\ mode = m /\ pairs = <<>> /\ cur = 1 /\ items = <<>>
    /\ obs = [res |-> "", all |-> <<>>]

-----------------------------------------------------------------------------
OneToOne == \A i, j \in 1..Len(pairs) :
    (pairs[i][1] = pairs[j][1] \/ pairs[i][2] = pairs[j][2]) => i = j
ValidNames == \A i \in 1..Len(pairs) : Valid(pairs[i][1])
ItemsNamed == \A i \in 1..Len(items) : HasName(pairs, items[i])
(* A pair, once there, stays (until the mapping is replaced). *)
Stable == [][ (\A i \in 1..Len(pairs) : i <= Len(pairs') => pairs'[i] = pairs[i])
              /\ (Len(pairs') >= Len(pairs)) ]_pairs
=============================================================================
