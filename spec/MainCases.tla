------------------------------ MODULE MainCases ------------------------------
(***************************************************************************)
(* Running of main functions.  A behaviour loads a program, finds its main *)
(* function, and then gives it inputs one after another; what must be      *)
(* observed for each is printed.                                           *)
(***************************************************************************)
EXTENDS EvalCases

\* states: <<"load">>, <<"refused", why>>, <<"ready", values, main, inputs given>>
VARIABLE run

mvars == <<id, phase, run>>

MainType == TyFn(TyString, TyString)

\* exported values that are called main
Mains(u) ==
    {i \in 1..Len(u.items) :
        LET x == FirstItem(u.items[i].c, 1)
        IN  x.n = "ValueItem" /\ HasToken(x, "export") /\ Text(NameKid(x, 1)) = "main"}

MainOf(u, i) == <<u.mod, Pos(NameKid(FirstItem(u.items[i].c, 1), 1))>>

Latest(S) == CHOOSE i \in S : \A j \in S : j <= i

Loaded(c) ==
    LET ms == Modules(c)
        m == c.mods[Len(c.mods)]
        u == CompileToEnd(NewUnit(m.path, m.b, m.t, ms.env))
        sym == MainOf(u, Latest(Mains(u)))
        p0 == IF c.std THEN [StdProgram EXCEPT !.out = <<>>] ELSE NoProgram
        p == Items(ms.units, p0, u, 1, c.fuel, FALSE)
    IN  IF HasErrors(u) \/ \E x \in DOMAIN ms.units : HasErrors(ms.units[x]) THEN <<"refused", "errors">>
        ELSE IF Mains(u) = {} THEN <<"refused", "nomain">>
        ELSE IF u.defs[sym].ty # MainType THEN <<"refused", "badmain">>
        ELSE IF p.end # <<>> THEN <<"stopped", p.end>>
        ELSE <<"ready", p.G, p.G[p.glob[sym][2]], 0>>

MainInit == Init /\ run = <<"load">>

Load == /\ run = <<"load">>
        /\ run' = Loaded(Cases[id])
        /\ UNCHANGED <<id, phase>>

Result(s) == IF s[1] = "done" THEN (IF IsStr(s[2]) THEN <<"ok", s[2][2]>> ELSE <<"stuck", "main">>) ELSE s

Say(i, result) == PrintT("MAIN " \o ToJson([id |-> Cases[id].id, input |-> i, out |-> result]))

Give == /\ run[1] = "ready"
        /\ run[4] < Len(Cases[id].inputs)
        /\ LET input == Cases[id].inputs[run[4] + 1]
           IN  Say(run[4] + 1, Result(Run(run[2], <<"ap", run[3], <<"s", input>>, <<>>>>, Cases[id].fuel)))
        /\ run' = [run EXCEPT ![4] = @ + 1]
        /\ UNCHANGED <<id, phase>>

Refuse == /\ run[1] \in {"refused", "stopped"}
          /\ Say(0, IF run[1] = "refused" THEN <<run[2]>> ELSE run[2])
          /\ run' = <<"over">>
          /\ UNCHANGED <<id, phase>>

Over == /\ (run[1] = "over" \/ (run[1] = "ready" /\ run[4] = Len(Cases[id].inputs)))
        /\ UNCHANGED mvars

MainNext == Load \/ Give \/ Refuse \/ Over

MainSpec == MainInit /\ [][MainNext]_mvars

\* a main function never gives anything but a string, and never gets stuck
Sound == run[1] = "stopped" => run[2][1] # "stuck"
=============================================================================
