-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* How values are printed: byte strings.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* characters 32 to 126
Printable == " !" \o "\"" \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" \o "\\"
             \o "]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>

ShowByte(b) ==
    IF b \in {34, 92} THEN "\\" \o SubSeq(Printable, b - 31, b - 31)
    ELSE IF b >= 32 /\ b <= 126 THEN SubSeq(Printable, b - 31, b - 31)
    ELSE IF b = 13 THEN "\\r" ELSE IF b = 10 THEN "\\n"
    ELSE "\\x" \o Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]

ShowBytes(s) == "\"" \o FoldLeft(LAMBDA acc, b: acc \o ShowByte(b), "", s) \o "\""
=============================================================================
