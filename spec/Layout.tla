------------------------------ MODULE Layout -------------------------------
(***************************************************************************)
(* C19: what composed messages are made of.                                *)
(*                                                                         *)
(* A message (a `Protocol`, or a bare `PrimitiveArray`) is a sequence of   *)
(* slots: primitives - each in a byte order - and chunks of bytes.  Its    *)
(* bytes are its slots' bytes, in the order they were added.  Names refer  *)
(* to slots; a type system finds messages by names of its namespaces.      *)
(*                                                                         *)
(* Primitive values are kept as bytes, the most significant first.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES y,    \* everything: see Fresh
          obs   \* what the latest operation let its caller observe

lvars == <<y, obs>>

---------------------------------------------------------------------------
(* Kinds of primitives, enumerations.                                       *)
KindNames == <<"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32",
               "int64", "half", "float", "double", "bool">>
SizeOf == [i \in 1..12 |-> CASE i \in {1, 5, 12} -> 1 [] i \in {2, 6, 9} -> 2
                             [] i \in {3, 7, 10} -> 4 [] OTHER -> 8]
KindOf(name) == CHOOSE i \in 1..12 : KindNames[i] = name
IsBool(i) == i = 12

(* Enumerations: the kind of primitive, items as <<name, value bytes>>.     *)
Enums == << [z |-> 1, items |-> << <<1>>, <<2>>, <<200>> >>],
            [z |-> 2, items |-> << <<0, 1>>, <<1, 44>> >>],
            [z |-> 1, items |-> << <<0>>, <<1>> >>],
            [z |-> 1, items |-> << <<1>>, <<2>>, <<3>>, <<4>> >>] >>
ItemOf(e, v) == LET f == {i \in 1..Len(Enums[e].items) : Enums[e].items[i] = v}
                IN IF f = {} THEN 0 ELSE CHOOSE i \in f : TRUE

---------------------------------------------------------------------------
(* Bytes.                                                                   *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Zeros(n) == [i \in 1..n |-> 0]
InOrder(o, v) == IF o = "l" THEN Reverse(v) ELSE v
(* A length as bytes. *)
RECURSIVE Number(_, _)
Number(n, size) == IF size = 0 THEN <<>>
                   ELSE Append(Number(n \div 256, size - 1), n % 256)
RECURSIVE Value(_)
Value(v) == IF v = <<>> THEN 0 ELSE Value(Front(v)) * 256 + v[Len(v)]

(* Slots: t = "prim" (v: value, b: boolean, keep: what a copy of the        *)
(* message keeps of it: "all", "none" or just its bit-fields), "fix" and    *)
(* "pre" (v: data, z: size of the prefix).                                  *)
Prim(o, i, keep) == [t |-> "prim", o |-> o, z |-> SizeOf[i], b |-> IsBool(i), keep |-> keep,
                     v |-> Zeros(SizeOf[i])]
Chunk(t, o, z, v) == [t |-> t, o |-> o, z |-> z, b |-> FALSE, keep |-> "all", v |-> v]
Kept(ss) == [j \in 1..Len(ss) |-> [ss[j] EXCEPT !.keep = "all"]]
Norm(s, v) == IF s.b THEN IF \A i \in 1..Len(v) : v[i] = 0 THEN <<0>> ELSE <<1>> ELSE v

SlotBytes(s) == CASE s.t = "prim" -> InOrder(s.o, s.v)
                  [] s.t = "fix" -> s.v
                  [] OTHER -> InOrder(s.o, Number(Len(s.v), s.z)) \o s.v
BytesOf(ss) == Concat([i \in 1..Len(ss) |-> SlotBytes(ss[i])])

(* What reading from a stream makes of slots: <<slots, what's left>>.       *)
ReadOne(s, data) ==
    CASE s.t = "prim" -> [s |-> [s EXCEPT !.v = Norm(s, InOrder(s.o, SubSeq(data, 1, s.z)))],
                          n |-> s.z]
      [] s.t = "fix" -> [s |-> [s EXCEPT !.v = SubSeq(data, 1, Len(s.v))], n |-> Len(s.v)]
      [] OTHER -> LET size == Value(InOrder(s.o, SubSeq(data, 1, s.z)))
                  IN [s |-> [s EXCEPT !.v = SubSeq(data, s.z + 1, s.z + size)],
                      n |-> s.z + size]
Read(ss, data) ==
    FoldLeft(LAMBDA acc, s :
        LET r == ReadOne(s, acc.left) IN
        [ss |-> Append(acc.ss, r.s),
         left |-> SubSeq(acc.left, r.n + 1, Len(acc.left)),
         n |-> acc.n + r.n], [ss |-> <<>>, left |-> data, n |-> 0], ss)

---------------------------------------------------------------------------
(* Messages.  bare: an array without names; ord: byte order; ss: slots;     *)
(* nm: named parts [n, k ("field", "enum", "bits", "text", "part"), s       *)
(* (slot), e (enumeration), i, w (a bit-field's bits)]; head: how many      *)
(* slots are primitives of the (first) array; fr: its fragments, as slot    *)
(* ranges; reg: which registry gives its names their identifiers.           *)
NewMsg(bare, o, reg, id) ==
    [bare |-> bare, ord |-> o, ss |-> <<>>, nm |-> <<>>, head |-> 0, whole |-> TRUE, fr |-> <<>>,
     reg |-> reg, id |-> id]

(* Add primitives; whole: nothing but primitives was added until now.       *)
AddSlots(m, ss) == [m EXCEPT !.ss = @ \o ss, !.head = IF m.whole THEN @ + Len(ss) ELSE @]
AddParts(m, ss) == [m EXCEPT !.ss = @ \o ss, !.whole = FALSE]

(* Bits of a value's bytes: bit 0 is the least significant.                 *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(v, i) == (v[Len(v) - i \div 8] \div Pow2[(i % 8) + 1]) % 2
SetBit(v, i, b) == [v EXCEPT ![Len(v) - i \div 8] = @ + (b - Bit(v, i)) * Pow2[(i % 8) + 1]]
GetBits(v, i, w) == FoldLeft(LAMBDA acc, j : acc + Bit(v, i + j) * Pow2[j + 1], 0,
                             [j \in 1..w |-> j - 1])
SetBits(v, i, w, val) == FoldLeft(LAMBDA acc, j : SetBit(acc, i + j, (val \div Pow2[j + 1]) % 2),
                                  v, [j \in 1..w |-> j - 1])

(* What's read by name: <<1, item>> when it's named by the enumeration,     *)
(* <<0, ...>> otherwise (the value's bytes, the bits' number).              *)
ReadName(m, p) ==
    LET v == m.ss[p.s].v IN
    CASE p.k = "field" -> <<0>> \o v
      [] p.k = "enum" -> IF ItemOf(p.e, v) = 0 THEN <<0>> \o v ELSE <<1, ItemOf(p.e, v)>>
      [] p.k = "bits" -> LET n == GetBits(v, p.i, p.w)
                             it == IF p.e = 0 THEN 0 ELSE ItemOf(p.e, Number(n, Enums[p.e].z))
                         IN IF it = 0 THEN <<0, n>> ELSE <<1, it>>
      [] p.k = "text" -> <<2>> \o v
      [] OTHER -> <<3>>

ReadRaw(m, p) == IF p.k = "bits" THEN <<0, GetBits(m.ss[p.s].v, p.i, p.w)>>
                 ELSE <<0>> \o m.ss[p.s].v

IdOf(r, n) == LET f == {i \in 1..Len(r.m) : r.m[i][1] = n}
              IN IF f = {} THEN 0 ELSE r.m[CHOOSE i \in f : TRUE][2]
Register(r, n) == IF IdOf(r, n) # 0 THEN r
                  ELSE [m |-> Append(r.m, <<n, r.next>>), next |-> r.next + 1]

View(z, m) ==
    << Len(BytesOf(m.ss)), BytesOf(m.ss), IF m.bare THEN 0 ELSE m.id,
       [i \in 1..Len(m.nm) |-> <<IdOf(z.regs[m.reg], m.nm[i].n), ReadName(m, m.nm[i])>>],
       [i \in 1..Len(m.fr) |-> BytesOf(SubSeq(m.ss, m.fr[i][1] + 1, m.fr[i][2]))],
       (* Where the elements of the first array start. *)
       [i \in 1..m.head + 1 |-> Len(BytesOf(SubSeq(m.ss, 1, i - 1)))] >>

---------------------------------------------------------------------------
(* Type systems: names are sequences of characters.  tn: names known, in    *)
(* the namespace of the system ("o") or above it ("g"); each is a message   *)
(* ("m"), an enumeration ("e") or a primitive ("p").                        *)
Delim == <<":", ":">>
RECURSIVE Join(_)
Join(parts) == IF parts = <<>> THEN <<>>
               ELSE IF Len(parts) = 1 THEN parts[1]
               ELSE parts[1] \o Delim \o Join(Tail(parts))
Within(pattern, s) == \E i \in 0..(Len(s) - Len(pattern)) :
                          SubSeq(s, i + 1, i + Len(pattern)) = pattern
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Global == << [n |-> <<"u", "i", "n", "t", "8">>, t |-> "p", i |-> 1, w |-> "g"],
             [n |-> <<"u", "i", "n", "t", "1", "6">>, t |-> "p", i |-> 2, w |-> "g"],
             [n |-> <<"u", "i", "n", "t", "3", "2">>, t |-> "p", i |-> 3, w |-> "g"],
             [n |-> <<"u", "i", "n", "t", "6", "4">>, t |-> "p", i |-> 4, w |-> "g"],
             [n |-> <<"i", "n", "t", "8">>, t |-> "p", i |-> 5, w |-> "g"],
             [n |-> <<"i", "n", "t", "1", "6">>, t |-> "p", i |-> 6, w |-> "g"],
             [n |-> <<"i", "n", "t", "3", "2">>, t |-> "p", i |-> 7, w |-> "g"],
             [n |-> <<"i", "n", "t", "6", "4">>, t |-> "p", i |-> 8, w |-> "g"],
             [n |-> <<"h", "a", "l", "f">>, t |-> "p", i |-> 9, w |-> "g"],
             [n |-> <<"f", "l", "o", "a", "t">>, t |-> "p", i |-> 10, w |-> "g"],
             [n |-> <<"d", "o", "u", "b", "l", "e">>, t |-> "p", i |-> 11, w |-> "g"],
             [n |-> <<"b", "o", "o", "l">>, t |-> "p", i |-> 12, w |-> "g"],
             [n |-> <<"r", "u", "n", "t", "i", "m", "e", "p", "y", ":", ":", "B", "y", "t", "e", "O", "r", "d", "e", "r">>, t |-> "e", i |-> 4, w |-> "g"] >>

Known(z, n) == {i \in 1..Len(z.tn) : z.tn[i].n = n}
(* The entry a name stands for, 0 if there's none (or more than one).       *)
FindName(z, name, ns, exact) ==
    LET direct == {i \in Known(z, name) : z.tn[i].t \in {"p", "e"}}
        space == z.root \o ns
        cand == Join(Append(space, name))
        own == {i \in Known(z, cand) : z.tn[i].t = "m"}
        start == IF space = <<>> THEN <<>> ELSE Join(space) \o Delim
        found == {i \in 1..Len(z.tn) :
                    /\ \/ /\ z.tn[i].w = "g" /\ Within(name, z.tn[i].n)
                       \/ /\ z.tn[i].w = "o" /\ StartsWith(z.tn[i].n, start)
                          /\ Within(name, SubSeq(z.tn[i].n, Len(start) + 1, Len(z.tn[i].n)))
                    /\ exact => z.tn[i].n = cand}
        short == {i \in found : \A j \in found : Len(z.tn[i].n) <= Len(z.tn[j].n)}
    IN IF direct # {} THEN CHOOSE i \in direct : TRUE
       ELSE IF own # {} THEN CHOOSE i \in own : TRUE
       ELSE IF Cardinality(short) = 1 THEN CHOOSE i \in short : TRUE ELSE 0
Available(z, name, ns) == Known(z, Join(Append(z.root \o ns, name))) = {}

---------------------------------------------------------------------------
Fresh(root) == [ms |-> <<>>, regs |-> <<>>, root |-> root, tn |-> Global]

Nothing == <<"", <<>>>>
Observe(z, r) == obs' = [r |-> r, ms |-> [i \in 1..Len(z.ms) |-> View(z, z.ms[i])]]

AddMsg(z, bare, o, id) ==
    [z EXCEPT !.regs = Append(@, [m |-> <<>>, next |-> 1]),
              !.ms = Append(@, NewMsg(bare, o, Len(z.regs) + 1, id))]

AddName(z, o, n, k, s, e, i, w) ==
    [z EXCEPT !.regs[z.ms[o].reg] = Register(@, n),
              !.ms[o].nm = Append(@, [n |-> n, k |-> k, s |-> s, e |-> e, i |-> i, w |-> w])]

(* A field of a kind or an enumeration, repeated n times.                   *)
Field(z, o, name, i, e, n) ==
    LET m == z.ms[o]
        keep == IF m.bare THEN "all" ELSE "none"
        s == IF e = 0 THEN Prim(m.ord, i, keep)
             ELSE Prim(m.ord, IF Enums[e].z = 1 THEN 1 ELSE 2, keep)
        z1 == [z EXCEPT !.ms[o] = AddSlots(m, [j \in 1..n |-> s])]
    IN IF m.bare THEN z1
       ELSE AddName(z1, o, name, IF e = 0 THEN "field" ELSE "enum", Len(m.ss) + 1, e, 0, 0)

(* Bit-fields of one primitive: fs is a sequence of <<name, width, enum>>.  *)
BitsOf(z, o, i, fs) ==
    LET m == z.ms[o]
        z1 == [z EXCEPT !.ms[o] = AddSlots(m, <<Prim(m.ord, i, "bits")>>)]
    IN FoldLeft(LAMBDA acc, f :
            [z |-> AddName(acc.z, o, f[1], "bits", Len(m.ss) + 1, f[3], acc.at, f[2]),
             at |-> acc.at + f[2]], [z |-> z1, at |-> 0], fs).z

(* Something of its own, n times.                                           *)
Parts(z, o, name, kind, ss, n) ==
    LET m == z.ms[o]
        z1 == [z EXCEPT !.ms[o] = AddParts(m, Concat([j \in 1..n |-> Kept(ss)]))]
    IN IF m.bare THEN z1 ELSE AddName(z1, o, name, kind, Len(m.ss) + 1, 0, 0, 0)

(* Just the named bits of slot j. *)
Masked(m, j) == FoldLeft(LAMBDA v, p : SetBits(v, p.i, p.w, GetBits(m.ss[j].v, p.i, p.w)),
                         Zeros(m.ss[j].z), SelectSeq(m.nm, LAMBDA p : p.k = "bits" /\ p.s = j))
(* What a copy keeps. *)
Copied(m) == [j \in 1..Len(m.ss) |->
    CASE m.ss[j].keep = "all" -> m.ss[j]
      [] m.ss[j].keep = "bits" -> [m.ss[j] EXCEPT !.v = Masked(m, j)]
      [] OTHER -> [m.ss[j] EXCEPT !.v = Zeros(m.ss[j].z)]]
(* What's exported: values that have a name. *)
Exported(m) == [j \in 1..Len(m.ss) |->
    IF m.ss[j].keep = "bits" THEN [m.ss[j] EXCEPT !.v = Masked(m, j)]
    ELSE IF \E p \in 1..Len(m.nm) : m.nm[p].s = j THEN m.ss[j]
    ELSE [m.ss[j] EXCEPT !.v = Zeros(m.ss[j].z)]]

Do(z, op) ==
    CASE op.k = "new" -> [z |-> AddMsg(z, op.bare, op.o, op.id), r |-> Nothing]
      [] op.k = "field" -> [z |-> Field(z, op.m, op.n, op.i, op.e, op.len), r |-> Nothing]
      [] op.k = "bits" -> [z |-> BitsOf(z, op.m, op.i, op.fs), r |-> Nothing]
      [] op.k = "chunk" -> [z |-> Parts(z, op.m, op.n, "text",
                                  <<Chunk(op.t, op.o, op.z, op.v)>>, op.len), r |-> Nothing]
      [] op.k = "nest" -> [z |-> Parts(z, op.m, op.n, "part", z.ms[op.s].ss, op.len), r |-> Nothing]
      (* Set a value by name. *)
      [] op.k = "set" ->
            LET m == z.ms[op.m]
                p == m.nm[op.p]
                v == m.ss[p.s].v
                new == CASE p.k = "field" -> Norm(m.ss[p.s], op.v)
                         [] p.k = "enum" -> IF op.it = 0 THEN op.v ELSE Enums[p.e].items[op.it]
                         [] p.k = "bits" -> SetBits(v, p.i, p.w,
                                IF op.it = 0 THEN op.v[1] ELSE Value(Enums[p.e].items[op.it]))
                         [] OTHER -> op.v
            IN [z |-> [z EXCEPT !.ms[op.m].ss[p.s].v = new], r |-> Nothing]
      (* Read a stream: what it consumed. *)
      [] op.k = "read" ->
            LET got == Read(z.ms[op.m].ss, op.d)
            IN [z |-> [z EXCEPT !.ms[op.m].ss = got.ss], r |-> <<"", <<got.n>>>>]
      (* Read what another one wrote (and leave what follows). *)
      [] op.k = "from" ->
            LET got == Read(z.ms[op.m].ss, BytesOf(z.ms[op.s].ss) \o <<7, 7>>)
            IN [z |-> [z EXCEPT !.ms[op.m].ss = got.ss], r |-> <<"", <<got.n>>>>]
      (* Make, and update, a fragment of the first array. *)
      [] op.k = "frag" ->
            LET m == z.ms[op.m] IN
            [z |-> [z EXCEPT !.ms[op.m].fr = Append(@, <<op.a, IF op.b < 0 THEN m.head ELSE op.b>>)],
             r |-> <<"", <<Len(m.fr)>>>>]
      [] op.k = "fset" ->
            LET m == z.ms[op.m]
                f == m.fr[op.f]
                got == Read(SubSeq(m.ss, f[1] + 1, f[2]), op.d)
            IN [z |-> [z EXCEPT !.ms[op.m].ss = SubSeq(m.ss, 1, f[1]) \o got.ss
                                              \o SubSeq(m.ss, f[2] + 1, Len(m.ss))], r |-> Nothing]
      [] op.k = "reset" -> [z |-> [z EXCEPT !.ms[op.m] = NewMsg(TRUE, @.ord, @.reg, @.id)], r |-> Nothing]
      [] op.k = "copy" ->
            LET m == z.ms[op.m] IN
            [z |-> [z EXCEPT !.ms = Append(@, [m EXCEPT !.ss = Copied(m),
                                                        !.fr = IF m.bare THEN @ ELSE <<>>])],
             r |-> Nothing]
      (* Just the elements, as an array. *)
      [] op.k = "array" ->
            LET m == z.ms[op.m] IN
            [z |-> [z EXCEPT !.regs = Append(@, [m |-> <<>>, next |-> 1]),
                             !.ms = Append(@, [m EXCEPT !.bare = TRUE, !.nm = <<>>,
                                 !.reg = Len(z.regs) + 1, !.id = 0,
                                 !.ss = Kept(@)])],
             r |-> Nothing]
      (* Export, import what was exported. *)
      [] op.k = "json" ->
            LET m == z.ms[op.m]
                r == z.regs[m.reg]
                names == {m.nm[j].n : j \in 1..Len(m.nm)}
                mine == SelectSeq(r.m, LAMBDA e : e[1] \in names)
                top == FoldLeft(LAMBDA acc, e : IF e[2] >= acc THEN e[2] + 1 ELSE acc, 1, mine)
            IN [z |-> [z EXCEPT !.regs = Append(@, [m |-> mine, next |-> top]),
                         !.ms = Append(@, [m EXCEPT !.reg = Len(z.regs) + 1, !.fr = <<>>,
                                                        !.ss = Exported(m)])],
                r |-> <<"", [j \in 1..Len(m.nm) |->
                              IF op.x THEN ReadName(m, m.nm[j]) ELSE ReadRaw(m, m.nm[j])]>>]
      (* A string of its own, written and read. *)
      [] op.k = "str" ->
            LET s == Chunk("pre", op.o, op.z, op.v)
            IN [z |-> z, r |-> <<"", <<Len(SlotBytes(s)), SlotBytes(s), op.v>>>>]
      (* Type systems. *)
      [] op.k = "treg" ->
            IF ~Available(z, op.n, op.ns) THEN [z |-> z, r |-> <<"taken", <<>>>>]
            ELSE LET z1 == AddMsg(z, FALSE, "b", 1) IN
                 [z |-> [z1 EXCEPT !.tn = Append(@, [n |-> Join(Append(z.root \o op.ns, op.n)),
                                                    t |-> "m", i |-> Len(z1.ms), w |-> "o"])],
                  r |-> Nothing]
      [] op.k = "tenum" ->
            IF ~Available(z, op.n, op.ns) THEN [z |-> z, r |-> <<"taken", <<>>>>]
            ELSE [z |-> [z EXCEPT !.tn = Append(@, [n |-> Join(Append(z.root \o op.ns, op.n)),
                                                    t |-> "e", i |-> op.e, w |-> "o"])],
                  r |-> Nothing]
      [] op.k = "tadd" ->
            LET a == FindName(z, op.n, <<>>, op.x)
                b == FindName(z, op.f, <<>>, op.x)
            IN IF a = 0 \/ b = 0 THEN [z |-> z, r |-> <<"unknown", <<>>>>]
               ELSE IF z.tn[a].t # "m" THEN [z |-> z, r |-> <<"unknown", <<>>>>]
               ELSE LET o == z.tn[a].i IN
                    [z |-> CASE z.tn[b].t = "m" -> Parts(z, o, op.name, "part", z.ms[z.tn[b].i].ss, op.len)
                             [] z.tn[b].t = "e" -> Field(z, o, op.name, 0, z.tn[b].i, op.len)
                             [] OTHER -> Field(z, o, op.name, z.tn[b].i, 0, op.len),
                     r |-> Nothing]
      [] op.k = "tfind" ->
            LET a == FindName(z, op.n, op.ns, op.x)
                e == z.tn[a]
            IN [z |-> z, r |->
                IF a = 0 THEN <<"unknown", <<>>>>
                ELSE IF e.t = "m" THEN <<"type", <<e.i, Len(BytesOf(z.ms[e.i].ss))>>>>
                ELSE IF e.t = "e" THEN <<"enum", <<e.i, Enums[e.i].z>>>>
                ELSE <<"kind", <<0, SizeOf[e.i]>>>>]

LInit(root) == y = Fresh(root) /\ obs = [r |-> Nothing, ms |-> <<>>]
LDo(op) == LET d == Do(y, op) IN y' = d.z /\ Observe(d.z, d.r)

---------------------------------------------------------------------------
(* Reading what a message wrote gives the message again, and nothing's left *)
(* of it; where things are is where their bytes are.                        *)
RoundTrip == \A i \in 1..Len(y.ms) :
    LET m == y.ms[i]
        got == Read(m.ss, BytesOf(m.ss))
    IN got.ss = m.ss /\ got.n = Len(BytesOf(m.ss)) /\ got.left = <<>>
NamesApart == \A i \in 1..Len(y.ms) : \A a, b \in 1..Len(y.ms[i].nm) :
    a # b => /\ y.ms[i].nm[a].n # y.ms[i].nm[b].n
             /\ IdOf(y.regs[y.ms[i].reg], y.ms[i].nm[a].n) # IdOf(y.regs[y.ms[i].reg], y.ms[i].nm[b].n)
TypesApart == \A i, j \in 1..Len(y.tn) : i # j => y.tn[i].n # y.tn[j].n
=============================================================================
