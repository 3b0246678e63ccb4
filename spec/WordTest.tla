------------------------------ MODULE WordTest ------------------------------
(***************************************************************************)
(* Words behave as numbers modulo Base ^ Limbs: checked for all pairs of   *)
(* words (of a small size).                                                *)
(***************************************************************************)
EXTENDS Word

Size == Pow(Base, Limbs)

VARIABLES x, y

Value(a) == IF IsSmall(a) THEN a[1]
            ELSE FoldLeft(LAMBDA acc, i: acc + a[i] * Pow(Base, i - 1), 0, LowToHigh)

Init == x \in 0..(Size - 1) /\ y \in 0..(Size - 1)
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>

a == Word(x)
b == Word(y)

Canonical(w) == w = Word(Value(w))

Correct ==
    /\ Value(a) = x /\ Value(b) = y
    /\ \A w \in {Plus(a, b), Minus(a, b), Times(a, b), Quotient(a, b), Remainder(a, b)} : Canonical(w)
    /\ Value(Plus(a, b)) = (x + y) % Size
    /\ Value(Minus(a, b)) = (x - y + Size) % Size
    /\ Value(Times(a, b)) = (x * y) % Size
    /\ Value(Quotient(a, b)) = (IF y = 0 THEN 0 ELSE x \div y)
    /\ Value(Remainder(a, b)) = (IF y = 0 THEN x ELSE x % y)
    /\ Below(a, b) = (x < y) /\ NotAbove(a, b) = (x <= y)
    /\ Small > 10 => /\ ShowWord(a) = ToString(x)
                    /\ FromDecimal(Decimal(a)) = a
=============================================================================
