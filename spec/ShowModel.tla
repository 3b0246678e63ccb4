----------------------------- MODULE ShowModel ------------------------------
(***************************************************************************)
(* Different values are printed differently: what ShowBytes gives, read    *)
(* from left to right, is the string it was given.                         *)
(***************************************************************************)
EXTENDS Show, TLC

CONSTANT Limit, Alphabet

VARIABLE s

Init == s = <<>>
Next == Len(s) < Limit /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s

CodeOf == [b \in 32..126 |-> SubSeq(Printable, b - 31, b - 31)]
ByteAt(t, i) == CHOOSE b \in 32..126 : CodeOf[b] = SubSeq(t, i, i)
HexAt(t, i) == (CHOOSE j \in 1..16 : Hex[j] = SubSeq(t, i, i)) - 1

\* the rest of a string in quotes, as it is read
RECURSIVE Read(_, _)
Read(t, i) ==
    LET c == SubSeq(t, i, i)
        d == SubSeq(t, i + 1, i + 1)
    IN  IF c = "\"" THEN IF i = Len(t) THEN <<>> ELSE <<-1>>
        ELSE IF c # "\\" THEN <<ByteAt(t, i)>> \o Read(t, i + 1)
        ELSE CASE d = "x" -> <<16 * HexAt(t, i + 2) + HexAt(t, i + 3)>> \o Read(t, i + 4)
               [] d = "r" -> <<13>> \o Read(t, i + 2)
               [] d = "n" -> <<10>> \o Read(t, i + 2)
               [] OTHER -> <<ByteAt(t, i + 1)>> \o Read(t, i + 2)

Readable == Read(ShowBytes(s), 2) = s
=============================================================================
