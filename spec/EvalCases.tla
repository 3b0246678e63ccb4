----------------------------- MODULE EvalCases ------------------------------
(***************************************************************************)
(* Outcomes of programs.  A behaviour analyses and evaluates one program   *)
(* and prints what must be observed of it.                                 *)
(***************************************************************************)
EXTENDS Eval, Json, IOUtils

CONSTANT CasesFile, StdFile

Cases == ndJsonDeserialize(CasesFile)
Std == ndJsonDeserialize(StdFile)

\* modules: each may use only the previous ones; units are kept
RECURSIVE AddUnits(_, _, _, _)
AddUnits(ms, i, env, units) ==
    IF i > Len(ms) THEN [env |-> env, units |-> units]
    ELSE LET m == TLCEval(Finish(NewUnit(ms[i].path, ms[i].b, ms[i].t, env)))
         IN  AddUnits(ms, i + 1,
                [find |-> (ms[i].path :> <<"ok", ms[i].path>>) @@ env.find,
                 mods |-> (ms[i].path :> [exports |-> m.exports, types |-> m.types]) @@ env.mods],
                (ms[i].path :> m.unit) @@ units)

NoEnv == [find |-> [x \in {} |-> 0], mods |-> [x \in {} |-> 0]]

StdUnits == AddUnits(Std, 1, NoEnv, [x \in {} |-> 0])

\* nothing in standard modules can trap, so they can be evaluated in advance
StdProgram == FoldLeft(LAMBDA p, m: Module(StdUnits.units, p, m.path, 100, FALSE), NoProgram, Std)

VARIABLES id, phase

vars == <<id, phase>>

Init == /\ id \in 1..Len(Cases)
        /\ phase = "load"

Modules(c) ==
    AddUnits(SubSeq(c.mods, 1, Len(c.mods) - 1), 1, IF c.std THEN StdUnits.env ELSE NoEnv,
             IF c.std THEN StdUnits.units ELSE [x \in {} |-> 0])

\* result of a program, or of a function of it applied to an input
Outcome(c) ==
    LET ms == Modules(c)
        m == c.mods[Len(c.mods)]
        u == CompileToEnd(NewUnit(m.path, m.b, m.t, ms.env))
        p0 == IF c.std THEN [StdProgram EXCEPT !.out = <<>>] ELSE NoProgram
        p == Items(ms.units, p0, u, 1, c.fuel, TRUE)
    IN  IF HasErrors(u) \/ \E x \in DOMAIN ms.units : HasErrors(ms.units[x]) THEN <<"errors">>
        ELSE IF p.end = <<>> THEN <<"ok", Output(p)>>
        ELSE p.end

Evaluation == /\ phase = "load"
              /\ PrintT("OUTCOME " \o ToJson([id |-> Cases[id].id, out |-> Outcome(Cases[id])]))
              /\ phase' = "done"
              /\ UNCHANGED id

Done == phase = "done" /\ UNCHANGED vars

Next == Evaluation \/ Done

Spec == Init /\ [][Next]_vars
=============================================================================
