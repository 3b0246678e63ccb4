------------------------------ MODULE StdLaws -------------------------------
(***************************************************************************)
(* Laws that the promised functions obey, checked for all short lists and  *)
(* strings, and for all small numbers.                                     *)
(***************************************************************************)
EXTENDS Std

Elements == {I(0), I(1), I(2)}
Lists == UNION {[1..n -> Elements] : n \in 0..3}
Chars == {97, 13, 10, 32}
Texts == UNION {[1..n -> Chars] : n \in 0..4}
Numbers == 0..12

VARIABLES l, s, x, y

vars == <<l, s, x, y>>

Init == \/ l \in Lists /\ s = <<>> /\ x \in {0, 1, 2, 5} /\ y = 0
        \/ l = <<>> /\ s \in Texts /\ x \in Chars /\ y = 0
        \/ l = <<>> /\ s = <<>> /\ x \in Numbers /\ y \in Numbers

Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

The(f, a) == CHOOSE v \in Promise(f, a \o <<0, 0, 0>>) : TRUE
Only(f, a) == Cardinality(Promise(f, a \o <<0, 0, 0>>)) = 1

ListLaws ==
    /\ The("list.reverse", <<The("list.reverse", <<L(l)>>)>>) = L(l)
    /\ LET a == The("list.take", <<I(x), L(l)>>)
           b == The("list.skip", <<I(x), L(l)>>)
       IN  /\ a[2] \o b[2] = l
           /\ Len(a[2]) = IF x < Len(l) THEN x ELSE Len(l)
    /\ \A less \in {"lt", "gt", "le", "lt3"} :
          LET sorted == Promise("list.sortBy", <<<<"f", less>>, L(l), 0>>)
              best == Promise("list.minBy", <<<<"f", less>>, L(l), 0>>)
              worst == Promise("list.maxBy", <<<<"f", less>>, L(l), 0>>)
          IN  /\ sorted # {}
              /\ \A r \in sorted : \A e \in Elements :
                    Cardinality({i \in 1..Len(l) : l[i] = e}) = Cardinality({i \in 1..Len(l) : r[2][i] = e})
              /\ l # <<>> => \A r \in sorted : Some(r[2][1]) \in best /\ Some(r[2][Len(l)]) \in worst
    /\ \A less \in {"lt", "gt", "le"} : Only("list.sortBy", <<<<"f", less>>, L(l)>>)
    /\ Only("list.max", <<L(l)>>) /\ Only("list.min", <<L(l)>>)
    /\ The("list.foldr", <<<<"f", "plus">>, I(0), L(l)>>) = The("list.sum", <<L(l)>>)
    /\ The("list.foldl", <<I(0), <<"f", "plus">>, L(l)>>) = The("list.sum", <<L(l)>>)
    /\ The("list.zip", <<<<"f", "minus">>, L(l), L(l)>>) = L([i \in 1..Len(l) |-> I(0)])

TextLaws ==
    /\ LET ps == The("string.split", <<I(x), S(s)>>)
       IN  /\ The("list.join", <<S(<<x>>), ps>>) = S(s)
           /\ \A i \in 1..Len(ps[2]) : \A k \in 1..Len(ps[2][i][2]) : ps[2][i][2][k] # x
    /\ LET t == The("string.trim", <<S(s)>>)[2]
       IN  /\ t # <<>> => t[1] # 32 /\ t[Len(t)] # 32
           /\ \E i, j \in 0..Len(s) : t = SubSeq(s, i + 1, j) /\ \A k \in 1..Len(s) : k <= i \/ k > j => s[k] = 32
    /\ \A i \in 1..Len(The("string.lines", <<S(s)>>)[2]) :
          LET line == The("string.lines", <<S(s)>>)[2][i][2] IN \A k \in 1..Len(line) : line[k] # 10
    /\ The("string.startsWith", <<S(s), S(s \o s)>>) = B(TRUE)

NumberLaws ==
    LET g == The("int.gcd", <<I(x), I(y)>>)[2][1]
        m == The("int.lcm", <<I(x), I(y)>>)[2][1]
        Divides(d, n) == \E k \in 0..144 : d * k = n
    IN  /\ Divides(g, x) /\ Divides(g, y)
        /\ \A d \in Numbers : Divides(d, x) /\ Divides(d, y) => Divides(d, g)
        /\ Divides(x, m) /\ Divides(y, m)
        /\ x > 0 /\ y > 0 => \A k \in 1..(m - 1) : ~(Divides(x, k) /\ Divides(y, k))
        /\ Plus(The("int.bitAnd", <<I(x), I(y)>>)[2], The("int.bitOr", <<I(x), I(y)>>)[2]) = Word(x + y)
        /\ Plus(The("int.bitAnd", <<I(x), I(y)>>)[2], The("int.bitXor", <<I(x), I(y)>>)[2]) = The("int.bitOr", <<I(x), I(y)>>)[2]
        /\ The("int.parse", <<The("int.toString", <<I(x * y)>>)>>) = Good(I(x * y))
        /\ Len(The("list.range", <<I(x), I(y)>>)[2]) = IF x < y THEN y - x ELSE 0

Laws == ListLaws /\ TextLaws /\ NumberLaws
=============================================================================
