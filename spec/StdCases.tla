------------------------------ MODULE StdCases ------------------------------
(***************************************************************************)
(* Compares results of calls of standard functions with what is promised.  *)
(***************************************************************************)
EXTENDS Std, Json

CONSTANT CasesFile

Cases == ndJsonDeserialize(CasesFile)

\* arguments come with decimal digits of numbers
RECURSIVE Value(_)
Value(v) ==
    CASE v[1] = "i" -> <<"i", FromDecimal(v[2])>>
      [] v[1] \in {"l", "o"} -> <<v[1], [i \in 1..Len(v[2]) |-> Value(v[2][i])]>>
      [] v[1] = "r" -> <<"r", v[2], Value(v[3])>>
      [] v[1] = "fromList" -> <<"fromList", Value(v[2])>>
      [] v[1] = "ops" -> [i \in 1..Len(v[2]) |-> Value(v[2][i])]
      [] v[1] \in {"new", "set", "mapIdx"} -> <<v[1], Value(v[2]), Value(v[3])>>
      [] v[1] \in {"get", "truncate"} -> <<v[1], Value(v[2])>>
      [] OTHER -> v

VARIABLES id, phase

vars == <<id, phase>>

Init == /\ id \in 1..Len(Cases)
        /\ phase = "load"

\* unused arguments are nothing
Allowed(c) ==
    LET n == Len(c.args)
    IN  {Show(v, FALSE) : v \in Promise(c.f, TLCEval([i \in 1..3 |-> IF i <= n THEN Value(c.args[i]) ELSE <<>>]))}

Report(c, e) == PrintT("MISMATCH " \o ToJson([id |-> c.id, expected |-> e, got |-> c.obs]))

Call == /\ phase = "load"
        /\ LET c == Cases[id]
               e == Allowed(c)
           IN  (c.obs \in e \/ Report(c, e)) \in BOOLEAN
        /\ phase' = "done"
        /\ UNCHANGED id

Done == phase = "done" /\ UNCHANGED vars

Next == Call \/ Done

Spec == Init /\ [][Next]_vars
=============================================================================
