------------------------------ MODULE Positions ------------------------------
(***************************************************************************)
(* Positions of the editor: a line and a number of UTF-16 units in it.     *)
(* Positions of the compiler: a number of bytes of UTF-8.  A text is a     *)
(* sequence of code points.  Lines end with LF, CR LF or CR.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Units(c) == IF c < 65536 THEN 1 ELSE 2

LF == 10
CR == 13

\* a line ends after character i
EndsLine(t, i) == t[i] = LF \/ (t[i] = CR /\ ~(i < Len(t) /\ t[i + 1] = LF))

\* places between characters: [off: bytes, line, col]
Places(t) ==
    LET Next(acc, i) ==
            LET p == acc[i]
            IN  Append(acc, IF EndsLine(t, i) THEN [off |-> p.off + Bytes(t[i]), line |-> p.line + 1, col |-> 0]
                            ELSE [off |-> p.off + Bytes(t[i]), line |-> p.line, col |-> p.col + Units(t[i])])
    IN  FoldLeft(Next, <<[off |-> 0, line |-> 0, col |-> 0]>>, [i \in 1..Len(t) |-> i])

\* byte offset -> <<line, column>>, from places
LspTable(ps) ==
    LET I == 1..Len(ps)
    IN  [o \in {ps[i].off : i \in I} |-> LET i == CHOOSE i \in I : ps[i].off = o IN <<ps[i].line, ps[i].col>>]

\* places of each line, as first and last index of places
Lines(ps) ==
    LET Next(acc, i) == IF ps[i].line = Len(acc) THEN Append(acc, <<i, i>>) ELSE [acc EXCEPT ![Len(acc)][2] = i]
    IN  FoldLeft(Next, <<>>, [i \in 1..Len(ps) |-> i])

(***************************************************************************)
(* What a position of the editor may mean.  A position inside of a         *)
(* character means the place before it; one past the end of a line is the  *)
(* end of the line; one past all lines is the end of the text.  CR before  *)
(* LF is a part of what ends a line; the place between them may be taken   *)
(* for the end too.                                                        *)
(***************************************************************************)
Offsets(t, ps, lines, line, char) ==
    IF line >= Len(lines) THEN {ps[Len(ps)].off}
    ELSE LET first == lines[line + 1][1]
             last == lines[line + 1][2]
             Best(acc, i) == IF ps[i].col <= char THEN i ELSE acc
             i == FoldLeft(Best, first, [k \in 1..(last - first + 1) |-> first + k - 1])
             between == i > first /\ i <= Len(t) /\ t[i] = LF /\ t[i - 1] = CR
         IN  {ps[i].off} \cup (IF between THEN {ps[i - 1].off} ELSE {})
=============================================================================
