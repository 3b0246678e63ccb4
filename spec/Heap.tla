-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The memory of the bytecode evaluator: objects are placed from the end   *)
(* of the memory to its start, each after the ones it refers to.  When     *)
(* there is too little room, what cannot be reached is dropped and the     *)
(* rest slides to the end of a memory that can be larger.                  *)
(*                                                                         *)
(* A behaviour does operations of Registers in both; the memory must hold  *)
(* the same values.  Sizes are in words.                                   *)
(***************************************************************************)
EXTENDS Registers, FiniteSets

CONSTANTS
    Header,     \* words of an object that are not its fields
    Initial,    \* size of the memory in the beginning
    TextSizes,  \* lengths of strings (a word holds one byte here)
    Steps

\* fields: numbers, or addresses <<"at", a>>
VARIABLES ideal, cap, objs, regs, funs, peak, steps

vars == <<ideal, cap, objs, regs, funs, peak, steps>>

(* -- memory: state [cap, objs (address -> object)] --------------------------- *)

ObjSize(o) == Header + Len(o.f)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Sum(S, f(_)) == FoldLeft(LAMBDA acc, x: acc + f(x), 0, SetToSeq(S))

\* start of the part that is used
Bump(h) == IF DOMAIN h.objs = {} THEN h.cap ELSE MinOf(DOMAIN h.objs)

Used(h) == h.cap - Bump(h)

Targets(o) == {o.f[i][2] : i \in {j \in 1..Len(o.f) : o.f[j][1] = "at"}}

(***************************************************************************)
(* One pass over objects from the lowest address: an object is kept if it  *)
(* is a root or an object before it refers to it.                          *)
(***************************************************************************)
Kept(h, roots) ==
    LET order == SetToSortSeq(DOMAIN h.objs, <)
    IN  FoldLeft(LAMBDA marked, a: IF a \in marked THEN marked \cup Targets(h.objs[a]) ELSE marked, roots, order)

Larger(a, b) == IF a > b THEN a ELSE b

\* gives [h |-> memory, to |-> new addresses]
Collect(h, roots, need) ==
    LET kept == Kept(h, roots)
        SizeAt(a) == ObjSize(h.objs[a])
        live == Sum(kept, SizeAt)
        size == Larger(Larger(4 * live, h.cap), need + live)
        order == SetToSortSeq(kept, >)
        Place(acc, a) == [top |-> acc.top - SizeAt(a), to |-> (a :> acc.top - SizeAt(a)) @@ acc.to]
        to == FoldLeft(Place, [top |-> size, to |-> [x \in {} |-> 0]], order).to
        Moved(o) == [o EXCEPT !.f = [i \in 1..Len(o.f) |-> IF o.f[i][1] = "at" THEN <<"at", to[o.f[i][2]]>> ELSE o.f[i]]]
    IN  [h |-> [cap |-> size, objs |-> [b \in {to[a] : a \in kept} |-> Moved(h.objs[CHOOSE a \in kept : to[a] = b])]],
         to |-> to]

(* -- registers of a machine with memory -------------------------------------- *)

Mem == [cap |-> cap, objs |-> objs]

AddressesOf(s) == {s[i][2] : i \in {j \in 1..Len(s) : s[j][1] = "at"}}

\* m: [h, r, g, x]: x are values that an operation still needs
RootsOf(m) == AddressesOf(m.r) \cup AddressesOf(m.g) \cup AddressesOf(m.x)

Collected(m, need) ==
    LET c == Collect(m.h, RootsOf(m), need)
        To(s) == [i \in 1..Len(s) |-> IF s[i][1] = "at" THEN <<"at", c.to[s[i][2]]>> ELSE s[i]]
    IN  [h |-> c.h, r |-> To(m.r), g |-> To(m.g), x |-> To(m.x)]

\* a new object with fields x, or with bytes; its address is then in x
Allocate(m, kind, bytes) ==
    LET n == IF kind = "s" THEN Len(bytes) ELSE Len(m.x)
        size == Header + n
        m1 == IF Used(m.h) + size > m.h.cap THEN Collected(IF kind = "s" THEN [m EXCEPT !.x = <<>>] ELSE m, size) ELSE m
        a == Bump(m1.h) - size
        o == [k |-> kind, f |-> IF kind = "s" THEN bytes ELSE m1.x]
        m2 == [m1 EXCEPT !.h.objs = (a :> o) @@ @, !.x = <<<<"at", a>>>>]
    IN  IF a < 0 THEN [m EXCEPT !.x = <<<<"no room">>>>]
        ELSE IF 2 * Used(m2.h) > m2.h.cap THEN Collected(m2, 0) ELSE m2

Machine == [h |-> Mem, r |-> regs, g |-> funs, x |-> <<>>]

Object(m, v) == m.h.objs[v[2]]

IsObject(m, v, kinds) == v[1] = "at" /\ Object(m, v).k \in kinds

BytesOf(m, v) == IF IsObject(m, v, {"s"}) THEN Object(m, v).f ELSE <<>>

Structures == {"p", "t", "w"}

SizeField(m, v) == IF IsObject(m, v, Structures) THEN Object(m, v).f[1][2] ELSE 1

Structure(m, kind, parts) ==
    LET size == FoldLeft(LAMBDA acc, v: acc + SizeField(m, v), 1, parts)
    IN  IF size > Cap THEN [m EXCEPT !.x = <<<<"i", size>>>>]
        ELSE Allocate([m EXCEPT !.x = <<<<"i", size>>>> \o parts], kind, <<>>)

\* the machine after an operation: its result is in x
Computed(m, op) ==
    LET R(i) == m.r[op[i]]
        Gives(v) == [m EXCEPT !.x = <<v>>]
        Byte(b) == [i \in 1..Len(b) |-> <<"i", b[i]>>]
    IN  CASE op[1] = "int" -> Gives(<<"i", op[3]>>)
          [] op[1] = "copy" -> Gives(R(3))
          [] op[1] = "text" -> Allocate(m, "s", Byte([i \in 1..op[3] |-> op[4]]))
          [] op[1] = "cat" -> Allocate(m, "s", Clip(BytesOf(m, R(3)) \o BytesOf(m, R(4))))
          [] op[1] = "sub" -> Allocate(m, "s", Part(BytesOf(m, R(3)), op[4], op[5]))
          [] op[1] = "len" -> Gives(<<"i", Len(BytesOf(m, R(3)))>>)
          [] op[1] = "pair" -> Structure(m, "p", <<R(3), R(4)>>)
          [] op[1] = "triple" -> Structure(m, "t", <<R(3), R(4), R(5)>>)
          [] op[1] = "wide" -> Structure(m, "w", <<R(3), R(4)>>)
          [] op[1] = "first" -> Gives(IF IsObject(m, R(3), Structures) THEN Object(m, R(3)).f[2] ELSE <<"i", 1>>)
          [] op[1] = "final" ->
                Gives(IF IsObject(m, R(3), Structures) THEN Object(m, R(3)).f[Len(Object(m, R(3)).f)] ELSE <<"i", 2>>)
          [] op[1] = "call" ->
                Gives(IF IsObject(m, m.g[op[3]], {"f"}) THEN Object(m, m.g[op[3]]).f[op[4]] ELSE <<"i", 0>>)
          [] op[1] = "function" -> Allocate([m EXCEPT !.x = m.r], "f", <<>>)

(* -- behaviours --------------------------------------------------------------- *)

Operations ==
    LET D == 1..Regs
    IN  {<<"int", d, 5>> : d \in D} \cup {<<"text", d, n, 65 + d>> : d \in D, n \in TextSizes}
        \cup {<<o, d, a, b>> : o \in {"cat", "pair", "wide"}, d \in D, a \in D, b \in D}
        \cup {<<o, d, a>> : o \in {"copy", "first", "final"}, d \in D, a \in D}
        \cup {<<"triple", d, a, d, b>> : d \in D, a \in D, b \in D}
        \cup {<<"sub", d, a, 1, 1>> : d \in D, a \in D}
        \cup {<<"function", f>> : f \in 1..Funs} \cup {<<"call", d, f, a>> : d \in D, f \in 1..Funs, a \in D}

Live(m) ==
    LET SizeAt(a) == ObjSize(m.h.objs[a])
    IN  Sum(Kept(m.h, RootsOf(m)), SizeAt)

Init == /\ ideal = Start
        /\ cap = Initial
        /\ objs = [x \in {} |-> 0]
        /\ regs = [i \in 1..Regs |-> <<"i", 0>>]
        /\ funs = [i \in 1..Funs |-> <<"i", 0>>]
        /\ peak = 0
        /\ steps = 0

Operate == /\ steps < Steps
           /\ \E op \in Operations :
                LET m == Computed(Machine, op)
                    r == IF op[1] = "function" THEN m.r ELSE [m.r EXCEPT ![op[2]] = m.x[1]]
                    g == IF op[1] = "function" THEN [m.g EXCEPT ![op[2]] = m.x[1]] ELSE m.g
                    size == CASE m.x[1][1] = "at" -> ObjSize(Object(m, m.x[1])) [] OTHER -> 0
                IN  /\ ideal' = Do(ideal, op)
                    /\ cap' = m.h.cap
                    /\ objs' = m.h.objs
                    /\ regs' = r
                    /\ funs' = g
                    /\ peak' = Larger(peak, Larger(Live(m), Live(Machine) + size))
           /\ steps' = steps + 1

Stop == steps = Steps /\ UNCHANGED vars

Next == Operate \/ Stop

Spec == Init /\ [][Next]_vars

(* -- what must hold ------------------------------------------------------------ *)

RECURSIVE ValueOf(_)
ValueOf(v) ==
    IF v[1] # "at" THEN v
    ELSE LET o == objs[v[2]]
         IN  IF o.k = "s" THEN <<"s", [i \in 1..Len(o.f) |-> o.f[i][2]]>>
             ELSE IF o.k = "f" THEN [i \in 1..Len(o.f) |-> ValueOf(o.f[i])]
             ELSE <<o.k, o.f[1][2]>> \o [i \in 1..Len(o.f) - 1 |-> ValueOf(o.f[i + 1])]

Enough == \A i \in 1..Regs : regs[i][1] \in {"i", "at"}

SameValues == /\ Enough
              /\ \A i \in 1..Regs : ValueOf(regs[i]) = ideal.r[i]
              /\ \A i \in 1..Funs : funs[i][1] = "at" => ValueOf(funs[i]) = ideal.g[i]

\* an object refers only to objects after it, which is why one pass is enough
Upwards == \A a \in DOMAIN objs : \A b \in Targets(objs[a]) : b > a /\ b \in DOMAIN objs

Disjoint == \A a, b \in DOMAIN objs : a < b => a + ObjSize(objs[a]) <= b

Inside == \A a \in DOMAIN objs : a >= 0 /\ a + ObjSize(objs[a]) <= cap

\* memory is proportional to what was in use at some time
Proportional == cap <= Larger(Initial, 4 * peak)

\* what is in use never fills more than half of the memory after an operation
HalfEmpty == 2 * Used(Mem) <= cap
=============================================================================
