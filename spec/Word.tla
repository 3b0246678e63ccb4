-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Unsigned machine words: numbers modulo Base ^ Limbs, with arithmetic    *)
(* that wraps around.  TLC's own integers are too small for 64 bits, so a  *)
(* word is either << n >> for a number n that is less than                 *)
(* Base ^ SmallLimbs, or its digits in the given base, lowest first.       *)
(* (WordTest.tla compares all of this with plain arithmetic for all words  *)
(* of a few sizes.)                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Base, Limbs, SmallLimbs

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Small == Pow(Base, SmallLimbs)
MaxInt == 2147483647

Places == 1..Limbs
LowToHigh == [i \in Places |-> i]
HighToLow == [i \in Places |-> Limbs + 1 - i]

IsSmall(a) == Len(a) = 1

\* digits of a number
RECURSIVE DigitsOf(_, _)
DigitsOf(n, k) == IF k = 0 THEN <<>> ELSE <<n % Base>> \o DigitsOf(n \div Base, k - 1)

\* any number up to MaxInt
Word(n) == IF n < Small THEN <<n>> ELSE DigitsOf(n, Limbs)

Wide(a) == IF IsSmall(a) THEN DigitsOf(a[1], Limbs) ELSE a

Normal(ds) ==
    IF \A i \in (SmallLimbs + 1)..Limbs : ds[i] = 0
    THEN <<FoldLeft(LAMBDA acc, i: IF i > SmallLimbs THEN acc ELSE acc + ds[i] * Pow(Base, i - 1), 0, LowToHigh)>>
    ELSE ds

Zero == <<0>>
One == <<1>>

\* Combines digits from the lowest one up, with a carry
Carry(Digit(_), c0) ==
    LET Put(acc, i) ==
            LET x == Digit(i) + acc.c
            IN  [c |-> x \div Base, ds |-> Append(acc.ds, x % Base)]
    IN  Normal(FoldLeft(Put, [c |-> c0, ds |-> <<>>], LowToHigh).ds)

Plus(a, b) ==
    IF IsSmall(a) /\ IsSmall(b) /\ Small <= MaxInt \div 2 THEN
        Word(a[1] + b[1])
    ELSE LET x == Wide(a)
             y == Wide(b)
         IN  Carry(LAMBDA i: x[i] + y[i], 0)

Minus(a, b) ==
    IF IsSmall(a) /\ IsSmall(b) /\ a[1] >= b[1] THEN <<a[1] - b[1]>>
    ELSE LET x == Wide(a)
             y == Wide(b)
         IN  Carry(LAMBDA i: x[i] + (Base - 1 - y[i]), 1)

Times(a, b) ==
    IF IsSmall(a) /\ IsSmall(b) /\ (b[1] = 0 \/ a[1] < Small \div b[1]) THEN <<a[1] * b[1]>>
    ELSE LET x == Wide(a)
             y == Wide(b)
         IN  Carry(LAMBDA i: FoldLeft(LAMBDA acc, j: IF j > i THEN acc ELSE acc + x[j] * y[i + 1 - j], 0, LowToHigh), 0)

\* -1, 0 or 1
Order(a, b) ==
    IF IsSmall(a) /\ IsSmall(b) THEN IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0
    ELSE IF IsSmall(a) THEN -1
    ELSE IF IsSmall(b) THEN 1
    ELSE FoldLeft(LAMBDA acc, i: IF acc # 0 THEN acc
                                 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE 0,
                  0, HighToLow)

Below(a, b) == Order(a, b) = -1
NotAbove(a, b) == Order(a, b) # 1

\* quotient and remainder; b is not zero
RECURSIVE DivMod(_, _)
DivMod(a, b) ==
    IF IsSmall(a) /\ IsSmall(b) THEN [q |-> <<a[1] \div b[1]>>, r |-> <<a[1] % b[1]>>]
    ELSE IF Below(a, b) THEN [q |-> Zero, r |-> a]
    ELSE LET b2 == Plus(b, b)
             h == IF Below(b2, b) THEN [q |-> Zero, r |-> a] ELSE DivMod(a, b2)
             q2 == Plus(h.q, h.q)
         IN  IF Below(h.r, b) THEN [q |-> q2, r |-> h.r]
             ELSE [q |-> Plus(q2, One), r |-> Minus(h.r, b)]

\* division by zero has the quotient zero and leaves everything
Quotient(a, b) == IF b = Zero THEN Zero ELSE DivMod(a, b).q
Remainder(a, b) == IF b = Zero THEN a ELSE DivMod(a, b).r

DecimalDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>

\* decimal digits, highest first
RECURSIVE DecimalOf(_, _)
DecimalOf(a, acc) ==
    LET h == DivMod(a, <<10>>)
        acc2 == <<h.r[1]>> \o acc
    IN  IF h.q = Zero THEN acc2 ELSE DecimalOf(h.q, acc2)

Decimal(a) == DecimalOf(a, <<>>)

ShowWord(a) == IF IsSmall(a) THEN ToString(a[1])
               ELSE FoldLeft(LAMBDA acc, d: acc \o DecimalDigits[d + 1], "", Decimal(a))

\* number with given decimal digits, highest first
FromDecimal(ds) == FoldLeft(LAMBDA acc, d: Plus(Times(acc, <<10>>), <<d>>), Zero, ds)
=============================================================================
