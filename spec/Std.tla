-------------------------------- MODULE Std ---------------------------------
(***************************************************************************)
(* What functions of the standard modules promise, as functions on words,  *)
(* byte strings, sequences and optional values.                            *)
(*                                                                         *)
(* Values:  <<"i", word>>  <<"b", bool>>  <<"s", bytes>>  <<"l", values>>  *)
(*   <<"o", values>> (at most one)  <<"r", "Ok" or "Err", value>>          *)
(*   <<"c", name>>  constructor without fields                             *)
(*   <<"f", name>>  one of a few functions                                 *)
(***************************************************************************)
EXTENDS Word, Show, Bitwise, FiniteSets

I(n) == <<"i", Word(n)>>
B(b) == <<"b", b>>
S(s) == <<"s", s>>
L(l) == <<"l", l>>
None == <<"o", <<>>>>
Some(v) == <<"o", <<v>>>>
Good(v) == <<"r", "Ok", v>>
Bad(v) == <<"r", "Err", v>>

\* number of elements, iterations and such: at most limit
Nat_(w, limit) == IF IsSmall(w) /\ w[1] < limit THEN w[1] ELSE limit

RECURSIVE Show(_, _)
Show(v, atom) ==
    LET Par(x) == IF atom THEN "(" \o x \o ")" ELSE x
    IN  CASE v[1] = "i" -> ShowWord(v[2])
          [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
          [] v[1] = "s" -> ShowBytes(v[2])
          [] v[1] = "l" -> IF v[2] = <<>> THEN "Nil"
                           ELSE Par("Cons " \o Show(Head(v[2]), TRUE) \o " " \o Show(<<"l", Tail(v[2])>>, TRUE))
          [] v[1] = "o" -> IF v[2] = <<>> THEN "None" ELSE Par("Some " \o Show(v[2][1], TRUE))
          [] v[1] = "r" -> Par(v[2] \o " " \o Show(v[3], TRUE))
          [] v[1] = "c" -> v[2]

Reverse_(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Digits10(w) == [i \in 1..Len(Decimal(w)) |-> 48 + Decimal(w)[i]]

(* -- arguments that are functions --------------------------------------------- *)

Two == <<2>>
Three == <<3>>
IsEven(w) == Remainder(w, Two) = Zero

\* functions of one argument
Apply1(f, x) ==
    CASE f = "id" -> x
      [] f = "inc" -> <<"i", Plus(x[2], One)>>
      [] f = "dbl" -> <<"i", Times(x[2], Two)>>
      [] f = "even" -> B(IsEven(x[2]))
      [] f = "small" -> B(Below(x[2], Three))
      [] f = "never" -> B(FALSE)
      [] f = "always" -> B(TRUE)
      [] f = "half" -> IF IsEven(x[2]) THEN Some(<<"i", Quotient(x[2], Two)>>) ELSE None
      [] f = "check" -> IF Below(x[2], Three) THEN Good(<<"i", Times(x[2], <<5>>)>>) ELSE Bad(<<"i", Plus(x[2], One)>>)
      [] f = "twice" -> L(<<x, x>>)
      [] f = "copies" -> L([i \in 1..(x[2][1] % 4) |-> x])
      [] f = "show" -> S(Digits10(x[2]))
      [] f = "size" -> I(Len(x[2]))
      [] f = "shout" -> S(x[2] \o <<33>>)

\* functions of two arguments
Apply2(f, x, y) ==
    CASE f = "lt" -> B(Below(x[2], y[2]))
      [] f = "gt" -> B(Below(y[2], x[2]))
      [] f = "le" -> B(NotAbove(x[2], y[2]))
      [] f = "lt3" -> B(Below(Remainder(x[2], Three), Remainder(y[2], Three)))
      [] f = "shorter" -> B(Len(x[2]) < Len(y[2]))
      [] f = "plus" -> <<"i", Plus(x[2], y[2])>>
      [] f = "minus" -> <<"i", Minus(x[2], y[2])>>
      [] f = "mix" -> <<"i", Plus(Times(x[2], <<10>>), y[2])>>
      [] f = "glue" -> S(x[2] \o y[2])
      [] f = "pair" -> L(<<x, y>>)

Less(f, x, y) == Apply2(f[2], x, y)[2]

(* -- numbers ---------------------------------------------------------------- *)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = Zero THEN a ELSE Gcd(b, Remainder(a, b))

Bits(a, b, Op(_, _)) ==
    LET x == Wide(a)
        y == Wide(b)
    IN  Normal([i \in Places |-> Op(x[i], y[i])])

IsDigit(c) == c >= 48 /\ c <= 57
ParseInt(s) ==
    IF s = <<>> \/ \E i \in 1..Len(s) : ~IsDigit(s[i]) THEN Bad(<<"c", "ParseErr">>)
    ELSE Good(<<"i", FromDecimal([i \in 1..Len(s) |-> s[i] - 48])>>)

RECURSIVE Iterate(_, _, _)
Iterate(n, f, x) == IF n = 0 THEN x ELSE Iterate(n - 1, f, Apply1(f, x))

(* -- strings ---------------------------------------------------------------- *)

\* places in s, from 1, where c is
Places_(s, c) == {i \in 1..Len(s) : <<s[i]>> = c}

\* pieces of s between characters c (a word)
RECURSIVE Split(_, _)
Split(s, c) ==
    LET at == Places_(s, c)
    IN  IF at = {} THEN <<s>>
        ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
             IN  <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)

\* lines end with \n or \r\n; text after the last end of line is a line, if there is any
Lines(s) ==
    LET ps == Split(s, <<10>>)
        ended == [i \in 1..(Len(ps) - 1) |->
                    IF ps[i] # <<>> /\ ps[i][Len(ps[i])] = 13 THEN SubSeq(ps[i], 1, Len(ps[i]) - 1) ELSE ps[i]]
    IN  IF ps[Len(ps)] = <<>> THEN ended ELSE Append(ended, ps[Len(ps)])

\* without spaces at both ends
Trim(s) ==
    LET at == {i \in 1..Len(s) : s[i] # 32}
    IN  IF at = {} THEN <<>>
        ELSE SubSeq(s, CHOOSE i \in at : \A j \in at : i <= j, CHOOSE i \in at : \A j \in at : i >= j)

Substring(from, n, s) ==
    LET a == Nat_(from, Len(s))
        k == Nat_(n, Len(s) - a)
    IN  SubSeq(s, a + 1, a + k)

CharAt(i, s) == LET k == Nat_(i, Len(s)) IN IF k < Len(s) THEN s[k + 1] ELSE 0

(* -- lists ------------------------------------------------------------------- *)

Map(f, l) == [i \in 1..Len(l) |-> Apply1(f, l[i])]
Filter(f, l) == SelectSeq(l, LAMBDA x: Apply1(f, x)[2])
Concat(ls) == FoldLeft(LAMBDA acc, l: acc \o l[2], <<>>, ls)
SumOf(l) == FoldLeft(LAMBDA acc, x: Plus(acc, x[2]), Zero, l)
ProductOf(l) == FoldLeft(LAMBDA acc, x: Times(acc, x[2]), One, l)
Shorter(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)

\* numbers from a to b - 1
RECURSIVE Span_(_, _)
Span_(a, b) == IF Below(a, b) THEN <<<<"i", a>>>> \o Span_(Plus(a, One), b) ELSE <<>>

Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}

\* x must not come after y
Before(less, x, y) == Less(less, x, y) /\ ~Less(less, y, x)

Sorted(less, l) == \A i, j \in 1..Len(l) : i < j => ~Before(less, l[j], l[i])
SortedOrders(less, l) ==
    {q \in {[i \in 1..Len(l) |-> l[p[i]]] : p \in Orders(Len(l))} : Sorted(less, q)}

\* the best elements, as a set of optional values
Extreme(better(_, _), l) ==
    IF l = <<>> THEN {None}
    ELSE {Some(x) : x \in {x \in {l[i] : i \in 1..Len(l)} : \A i \in 1..Len(l) : ~better(l[i], x)}}

Join(sep, l) ==
    IF l = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, x: acc \o sep \o x[2], l[1][2], Tail(l))

AllOf(l, ok(_), bad(_), get(_), wrap(_)) ==
    LET at == {i \in 1..Len(l) : ~ok(l[i])}
    IN  IF at = {} THEN wrap(L([i \in 1..Len(l) |-> get(l[i])]))
        ELSE bad(l[CHOOSE i \in at : \A j \in at : i <= j])

(* -- arrays ------------------------------------------------------------------ *)

\* an array is [n |-> word, v |-> value of elements, s |-> changed elements];
\* arrays may be big, so only changed elements are listed
ArrayOf(l) == [n |-> Word(Len(l)), v |-> <<>>, s |-> [i \in {Word(k) : k \in 0..(Len(l) - 1)} |-> l[i[1] + 1]]]
At(a, i) == IF i \in DOMAIN a.s THEN a.s[i] ELSE a.v
Start(x) ==
    CASE x[1] = "empty" -> ArrayOf(<<>>)
      [] x[1] = "new" -> [n |-> x[2][2], v |-> x[3], s |-> [i \in {} |-> 0]]
      [] x[1] = "fromList" -> ArrayOf(x[2][2])

Change(a, op) ==
    CASE op[1] = "set" -> IF Below(op[2][2], a.n) THEN [a EXCEPT !.s = (op[2][2] :> op[3]) @@ @] ELSE a
      [] op[1] = "mapIdx" -> IF Below(op[2][2], a.n)
                             THEN [a EXCEPT !.s = (op[2][2] :> Apply1(op[3][2], At(a, op[2][2]))) @@ @] ELSE a
      [] op[1] = "truncate" -> IF Below(op[2][2], a.n)
                               THEN [a EXCEPT !.n = op[2][2],
                                              !.s = [i \in {i \in DOMAIN @ : Below(i, op[2][2])} |-> a.s[i]]]
                               ELSE a

Look(a, op) ==
    CASE op[1] = "length" -> <<"i", a.n>>
      [] op[1] = "get" -> IF Below(op[2][2], a.n) THEN Some(At(a, op[2][2])) ELSE None
      [] op[1] = "toList" -> L([i \in 1..Nat_(a.n, 1000) |-> At(a, Word(i - 1))])

(* -- all functions ------------------------------------------------------------- *)

\* what is allowed as a result of a function: a set, as some choices are left open
Promise(f, a) ==
    LET x == a[1]
        y == a[2]
        z == a[3]
        IsOk(r) == r[2] = "Ok"
        IsSome(o) == o[2] # <<>>
    IN CASE f = "int.iterate" -> {Iterate(x[2][1], y[2], z)}
         [] f = "int.toString" -> {S(Digits10(x[2]))}
         [] f = "int.parse" -> {ParseInt(x[2])}
         [] f = "int.min" -> {IF Below(x[2], y[2]) THEN x ELSE y}
         [] f = "int.max" -> {IF Below(x[2], y[2]) THEN y ELSE x}
         [] f = "int.gcd" -> {<<"i", Gcd(x[2], y[2])>>}
         [] f = "int.lcm" -> {<<"i", IF x[2] = Zero \/ y[2] = Zero THEN Zero
                                     ELSE Times(Quotient(x[2], Gcd(x[2], y[2])), y[2])>>}
         [] f = "int.bitAnd" -> {<<"i", Bits(x[2], y[2], LAMBDA p, q: p & q)>>}
         [] f = "int.bitOr" -> {<<"i", Bits(x[2], y[2], LAMBDA p, q: p | q)>>}
         [] f = "int.bitXor" -> {<<"i", Bits(x[2], y[2], LAMBDA p, q: p ^^ q)>>}
         \* option
         [] f = "option.map" -> {IF IsSome(y) THEN Some(Apply1(x[2], y[2][1])) ELSE None}
         [] f = "option.andThen" -> {IF IsSome(y) THEN Apply1(x[2], y[2][1]) ELSE None}
         [] f = "option.flatten" -> {IF IsSome(x) THEN x[2][1] ELSE None}
         [] f = "option.unwrapOr" -> {IF IsSome(y) THEN y[2][1] ELSE x}
         [] f = "option.apply" -> {IF IsSome(x) /\ IsSome(y) THEN Some(Apply1(y[2][1][2], x[2][1])) ELSE None}
         [] f = "option.isSome" -> {B(IsSome(x))}
         [] f = "option.isNone" -> {B(~IsSome(x))}
         \* result
         [] f = "result.map" -> {IF IsOk(y) THEN Good(Apply1(x[2], y[3])) ELSE y}
         [] f = "result.mapErr" -> {IF IsOk(y) THEN y ELSE Bad(Apply1(x[2], y[3]))}
         [] f = "result.andThen" -> {IF IsOk(y) THEN Apply1(x[2], y[3]) ELSE y}
         [] f = "result.flatten" -> {IF IsOk(x) THEN x[3] ELSE x}
         [] f = "result.unwrapOr" -> {IF IsOk(y) THEN y[3] ELSE x}
         [] f = "result.ok" -> {IF IsOk(x) THEN Some(x[3]) ELSE None}
         [] f = "result.err" -> {IF IsOk(x) THEN None ELSE Some(x[3])}
         [] f = "result.okOr" -> {IF IsSome(y) THEN Good(y[2][1]) ELSE Bad(x)}
         [] f = "result.apply" -> IF IsOk(x) /\ IsOk(y) THEN {Good(Apply1(y[3][2], x[3]))}
                                  ELSE {r \in {x, y} : ~IsOk(r)}
         [] f = "result.join" -> {x[3]}
         \* string
         [] f = "string.length" -> {I(Len(x[2]))}
         [] f = "string.concat" -> {S(x[2] \o y[2])}
         [] f = "string.charAt" -> {I(CharAt(x[2], y[2]))}
         [] f = "string.substring" -> {S(Substring(x[2], y[2], z[2]))}
         [] f = "string.fromChar" -> {S(<<Remainder(x[2], <<256>>)[1]>>)}
         [] f = "string.split" -> {L([i \in 1..Len(Split(y[2], x[2])) |-> S(Split(y[2], x[2])[i])])}
         [] f = "string.lines" -> {L([i \in 1..Len(Lines(x[2])) |-> S(Lines(x[2])[i])])}
         [] f = "string.foldChars" -> {FoldLeft(LAMBDA acc, c: Apply2(y[2], acc, I(c)), x, z[2])}
         [] f = "string.equal" -> {B(x = y)}
         [] f = "string.startsWith" -> {B(Len(x[2]) <= Len(y[2]) /\ SubSeq(y[2], 1, Len(x[2])) = x[2])}
         [] f = "string.chars" -> {L([i \in 1..Len(x[2]) |-> I(x[2][i])])}
         [] f = "string.trim" -> {S(Trim(x[2]))}
         [] f = "string.newline" -> {S(<<10>>)}
         \* list
         [] f = "list.map" -> {L(Map(x[2], y[2]))}
         [] f = "list.filter" -> {L(Filter(x[2], y[2]))}
         [] f = "list.sum" -> {<<"i", SumOf(x[2])>>}
         [] f = "list.product" -> {<<"i", ProductOf(x[2])>>}
         [] f = "list.any" -> {B(\E i \in 1..Len(x[2]) : x[2][i][2])}
         [] f = "list.all" -> {B(\A i \in 1..Len(x[2]) : x[2][i][2])}
         [] f = "list.head" -> {IF x[2] = <<>> THEN None ELSE Some(x[2][1])}
         [] f = "list.tail" -> {IF x[2] = <<>> THEN None ELSE Some(L(Tail(x[2])))}
         [] f = "list.reverse" -> {L(Reverse_(x[2]))}
         [] f = "list.max" -> Extreme(LAMBDA p, q: Below(q[2], p[2]), x[2])
         [] f = "list.min" -> Extreme(LAMBDA p, q: Below(p[2], q[2]), x[2])
         [] f = "list.maxBy" -> Extreme(LAMBDA p, q: Before(x, q, p), y[2])
         [] f = "list.minBy" -> Extreme(LAMBDA p, q: Before(x, p, q), y[2])
         [] f = "list.allSome" -> {AllOf(x[2], IsSome, LAMBDA o: None, LAMBDA o: o[2][1], Some)}
         [] f = "list.allOk" -> {AllOf(x[2], IsOk, LAMBDA r: r, LAMBDA r: r[3], Good)}
         [] f = "list.skip" -> {L(SubSeq(y[2], Nat_(x[2], Len(y[2])) + 1, Len(y[2])))}
         [] f = "list.take" -> {L(SubSeq(y[2], 1, Nat_(x[2], Len(y[2]))))}
         [] f = "list.length" -> {I(Len(x[2]))}
         [] f = "list.foldr" -> {FoldRight(LAMBDA e, acc: Apply2(x[2], e, acc), z[2], y)}
         [] f = "list.foldl" -> {FoldLeft(LAMBDA acc, e: Apply2(y[2], acc, e), x, z[2])}
         [] f = "list.repeat" -> {L([i \in 1..x[2][1] |-> y])}
         [] f = "list.filterMap" -> {L(Concat(Map(x[2], y[2])))}
         [] f = "list.concat" -> {L(x[2] \o y[2])}
         [] f = "list.sortBy" -> {L(q) : q \in SortedOrders(x, y[2])}
         [] f = "list.join" -> {S(Join(x[2], y[2]))}
         [] f = "list.range" -> {L(Span_(x[2], y[2]))}
         [] f = "list.zip" -> {L([i \in 1..Shorter(y[2], z[2]) |-> Apply2(x[2], y[2][i], z[2][i])])}
         [] f = "list.flatMap" -> {L(Concat(Map(x[2], y[2])))}
         [] f = "list.flatten" -> {L(Concat(x[2]))}
         \* an array that is made, changed several times and looked at
         [] f = "array" -> {Look(FoldLeft(Change, Start(x), y), z)}
=============================================================================
