------------------------------ MODULE HeapShapes ------------------------------
(***************************************************************************)
(* Results of programs that go through n values, in a closed form.         *)
(***************************************************************************)
EXTENDS Word, Json, IOUtils, TLC

CONSTANT CasesFile

Cases == ndJsonDeserialize(CasesFile)

VARIABLES id, said

Half(n) == n \div 2

Law(law, n) ==
    CASE law = "triangle" -> \* 0 + 1 + .. + n - 1
            IF n = 0 THEN Zero
            ELSE IF n % 2 = 0 THEN Times(Word(Half(n)), Word(n - 1)) ELSE Times(Word(n), Word(Half(n - 1)))
      [] law = "last" -> IF n = 0 THEN Zero ELSE Word(n - 1)
      [] law = "zero" -> Zero
      [] law \in {"same", "length"} -> Word(n)
      [] law = "double" -> Word(2 * n)
      [] law = "seven" -> Word(7 * n)
      [] law = "power" -> Word(2 ^ n)

Init == id \in 1..Len(Cases) /\ said = FALSE

Say == /\ ~said
       /\ PrintT("SHAPE " \o ToJson([id |-> id, out |-> ShowWord(Law(Cases[id].law, Cases[id].n))]))
       /\ said' = TRUE
       /\ UNCHANGED id

Done == said /\ UNCHANGED <<id, said>>

Next == Say \/ Done

Spec == Init /\ [][Next]_<<id, said>>
=============================================================================
