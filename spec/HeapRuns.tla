------------------------------ MODULE HeapRuns ------------------------------
(***************************************************************************)
(* Behaviours of Registers that are replayed in programs.  Some operations *)
(* are done, some number of times, and then some other ones; in the end    *)
(* all registers are shown.                                                *)
(***************************************************************************)
EXTENDS Registers, Show, Json

CONSTANTS Segments, Longest, Times, Sizes

VARIABLES m, prog

vars == <<m, prog>>

Random(S) == RandomElement(S)
Reg(i) == Random(1..Regs)

Kinds == <<"int", "copy", "text", "text", "cat", "cat", "cat", "sub", "len", "pair", "pair", "pair", "pair", "triple", "triple",
           "wide", "first", "final", "final", "call", "call", "function", "function">>

RandomOp(i) ==
    LET k == Kinds[Random(1..Len(Kinds))]
    IN  CASE k = "int" -> <<k, Reg(i), Random(0..1000)>>
          [] k \in {"copy", "first", "final", "len"} -> <<k, Reg(i), Reg(i)>>
          [] k = "text" -> <<k, Reg(i), Random(Sizes), Random(0..255)>>
          [] k \in {"cat", "pair", "wide"} -> <<k, Reg(i), Reg(i), Reg(i)>>
          [] k = "sub" -> <<k, Reg(i), Reg(i), Random(Sizes), Random(Sizes)>>
          [] k = "triple" -> <<k, Reg(i), Reg(i), Reg(i), Reg(i)>>
          [] k = "call" -> <<k, Reg(i), Random(1..Funs), Reg(i)>>
          [] k = "function" -> <<k, Random(1..Funs)>>

RECURSIVE RandomOps(_)
RandomOps(n) == IF n = 0 THEN <<>> ELSE Append(RandomOps(n - 1), TLCEval(RandomOp(n)))

Init == m = Start /\ prog = <<>>

Segment == /\ Len(prog) < Segments
           /\ \E n \in {Random(1..Longest)} : \E times \in {Random(Times)} : \E ops \in {RandomOps(n)} :
                /\ m' = Repeat(m, ops, times)
                /\ prog' = Append(prog, [n |-> times, ops |-> ops])

(* -- what programs print ----------------------------------------------------- *)

Fillers == FoldLeft(LAMBDA acc, i: acc \o " " \o ToString(i), "", [i \in 1..Wide |-> i])

RECURSIVE ShowV(_, _)
ShowV(v, atom) ==
    LET x == CASE v[1] = "i" -> "I " \o ToString(v[2])
               [] v[1] = "s" -> "S " \o ShowBytes(v[2])
               [] v[1] = "p" -> "P " \o ToString(v[2]) \o " " \o ShowV(v[3], TRUE) \o " " \o ShowV(v[4], TRUE)
               [] v[1] = "t" -> "T " \o ToString(v[2]) \o " " \o ShowV(v[3], TRUE) \o " " \o ShowV(v[4], TRUE) \o " "
                                \o ShowV(v[5], TRUE)
               [] v[1] = "w" -> "W " \o ToString(v[2]) \o " " \o ShowV(v[3], TRUE) \o Fillers \o " " \o ShowV(v[4], TRUE)
    IN  IF atom THEN "(" \o x \o ")" ELSE x

Outputs == [i \in 1..Regs |-> ShowV(m.r[i], FALSE)] \o
           [k \in 1..Funs * Regs |-> ShowV(m.g[((k - 1) \div Regs) + 1][((k - 1) % Regs) + 1], FALSE)]

Report == /\ Len(prog) = Segments
          /\ PrintT("RUN " \o ToJson([prog |-> prog, out |-> Outputs]))
          /\ prog' = Append(prog, [n |-> 0, ops |-> <<>>])
          /\ UNCHANGED m

Next == Segment \/ Report

Spec == Init /\ [][Next]_vars
=============================================================================
