------------------------------ MODULE Registers ------------------------------
(***************************************************************************)
(* A machine with registers that hold values: the part of evaluation that  *)
(* is about keeping data.  It has no memory that could run out.            *)
(*                                                                         *)
(* Values:  <<"i", n>>  <<"s", bytes>>  <<"p", size, a, b>> (pair)         *)
(*   <<"t", size, a, b, c>> (triple)  <<"w", size, a, b>> (wide: also has  *)
(*   Wide numbers between a and b).                                        *)
(* Functions hold the values of all registers.                             *)
(* All operations give a value for all arguments.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS
    Regs,       \* number of registers
    Funs,       \* number of registers of functions
    Cap,        \* largest size of a structure
    MaxText,    \* longest string
    Wide

Start == [r |-> [i \in 1..Regs |-> <<"i", 0>>], g |-> [i \in 1..Funs |-> [j \in 1..Regs |-> <<"i", 0>>]]]

SizeOf(v) == IF v[1] \in {"p", "t", "w"} THEN v[2] ELSE 1

TextOf(v) == IF v[1] = "s" THEN v[2] ELSE <<>>

Clip(s) == IF Len(s) > MaxText THEN SubSeq(s, 1, MaxText) ELSE s

Part(s, i, n) == SubSeq(s, i + 1, IF i + n > Len(s) THEN Len(s) ELSE i + n)

MakeOf(kind, parts) ==
    LET size == FoldLeft(LAMBDA acc, v: acc + SizeOf(v), 1, parts)
    IN  IF size > Cap THEN <<"i", size>> ELSE <<kind, size>> \o parts

First(v) == IF v[1] \in {"p", "t", "w"} THEN v[3] ELSE <<"i", 1>>
Final(v) == IF v[1] \in {"p", "t", "w"} THEN v[Len(v)] ELSE <<"i", 2>>

(***************************************************************************)
(* Operations: <<name, destination, operands..>>                           *)
(***************************************************************************)
Result(m, op) ==
    LET R(i) == m.r[op[i]]
    IN  CASE op[1] = "int" -> <<"i", op[3]>>
          [] op[1] = "copy" -> R(3)
          [] op[1] = "text" -> <<"s", [i \in 1..op[3] |-> op[4]]>>
          [] op[1] = "cat" -> <<"s", Clip(TextOf(R(3)) \o TextOf(R(4)))>>
          [] op[1] = "sub" -> <<"s", Part(TextOf(R(3)), op[4], op[5])>>
          [] op[1] = "len" -> <<"i", Len(TextOf(R(3)))>>
          [] op[1] = "pair" -> MakeOf("p", <<R(3), R(4)>>)
          [] op[1] = "triple" -> MakeOf("t", <<R(3), R(4), R(5)>>)
          [] op[1] = "wide" -> MakeOf("w", <<R(3), R(4)>>)
          [] op[1] = "first" -> First(R(3))
          [] op[1] = "final" -> Final(R(3))
          [] op[1] = "call" -> m.g[op[3]][op[4]]

Do(m, op) ==
    IF op[1] = "function" THEN [m EXCEPT !.g[op[2]] = m.r]
    ELSE [m EXCEPT !.r[op[2]] = Result(m, op)]

DoAll(m, ops) == FoldLeft(Do, m, ops)

RECURSIVE Repeat(_, _, _)
Repeat(m, ops, n) == IF n = 0 THEN m ELSE Repeat(TLCEval(DoAll(m, ops)), ops, n - 1)
=============================================================================
