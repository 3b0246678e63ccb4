---------------------------- MODULE PositionModel ----------------------------
(* Laws of positions, for all small texts. *)
EXTENDS Positions, FiniteSets

CONSTANTS Alphabet, MaxLen

VARIABLES t

Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t

Ps == Places(t)
Ls == Lines(Ps)
Table == LspTable(Ps)

Size == FoldLeft(LAMBDA acc, c: acc + Bytes(c), 0, t)

\* in the middle of CR LF
Between(i) == i > 1 /\ i <= Len(t) /\ t[i] = LF /\ t[i - 1] = CR

Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

\* each place has its own position, in order
Ordered == \A i \in 1..(Len(Ps) - 1) :
    /\ Ps[i].off < Ps[i + 1].off
    /\ Before(<<Ps[i].line, Ps[i].col>>, <<Ps[i + 1].line, Ps[i + 1].col>>)

\* there and back
RoundTrip == \A i \in 1..Len(Ps) :
    LET back == Offsets(t, Ps, Ls, Ps[i].line, Ps[i].col)
    IN  /\ Ps[i].off \in back
        /\ ~Between(i) => back = {Ps[i].off}

Probes == {<<l, c>> : l \in 0..(Len(Ls) + 1), c \in 0..(2 * Len(t) + 2)}

\* any position means a place in the text; later ones mean the same or later places
Total == \A p \in Probes :
    LET os == Offsets(t, Ps, Ls, p[1], p[2])
    IN  /\ os # {} /\ os \subseteq DOMAIN Table
        /\ \A o \in os : p[1] < Len(Ls) => Table[o][1] = p[1] /\ Table[o][2] <= p[2]

Latest(S) == CHOOSE x \in S : \A y \in S : y <= x
Monotone == \A p, q \in Probes : Before(p, q) =>
    Latest(Offsets(t, Ps, Ls, p[1], p[2])) <= Latest(Offsets(t, Ps, Ls, q[1], q[2]))

\* lines are what is between ends of lines
Count == Len(Ls) = 1 + Cardinality({i \in 1..Len(t) : EndsLine(t, i)})
=============================================================================
