----------------------------- MODULE CoreCases ------------------------------
(***************************************************************************)
(* Intermediate code that was emitted for programs.  A behaviour analyses  *)
(* and evaluates one program, checks emitted code and evaluates that, and  *)
(* prints all that is wrong.                                               *)
(***************************************************************************)
EXTENDS EvalCases, Core

Case == Cases[id]

Report(what, expected, got) ==
    PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> what, expected |-> expected, got |-> got]))

AllDefs(ms, u) == FoldLeft(LAMBDA acc, m: ms.units[m].defs @@ acc, u.defs, SetToSeq(DOMAIN ms.units))

(***************************************************************************)
(* One name of a type or a constructor stands for one of them: uses are    *)
(* <<name, number of type arguments>>.                                     *)
(***************************************************************************)
Consistent(uses) ==
    /\ \A i, j \in 1..Len(uses) : (uses[i][1] = uses[j][1] => uses[i][2] = uses[j][2])
    /\ \A i, j \in 1..Len(uses) : (uses[i][1][1] = uses[j][1][1] /\ uses[i][2] = uses[j][2] => uses[i][1] = uses[j][1])

Exported(u) ==
    LET ds == Defs(u.items)
    IN  SelectSeq(ds, LAMBDA d: d.k = "value" /\ d.vis = "export")

\* an optimised program need not stop where the program does
Same(outcome, got, optimised) ==
    \/ got = outcome
    \/ optimised /\ outcome[1] = "trap" /\ got[1] \in {"ok", "trap"}

\* fuel only bounds what is evaluated
Unfinished(x) == x[1] = "fuel"

CheckText(defs, u, outcome, text0) ==
    LET text == [text0 EXCEPT !.defs = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.e = Expression(@)]])]
        U == TLCEval(Universe(defs))
        r == TLCEval(CheckProgram(U, text.defs))
        exported == Exported(u)
        given == SelectSeq(text.defs, LAMBDA d: d.exp # "")
        names == [i \in 1..Len(given) |-> given[i].exp]
        expected == [i \in 1..Len(exported) |-> exported[i].x]
        types == [i \in 1..Len(given) |-> Shape(r.G[given[i].x])]
        declared == [i \in 1..Len(exported) |-> SourceShape(defs, exported[i])]
        got == RunProgram(U, text.defs, Case.fuel * 4)
        which == IF text.optimised THEN "optimised code: " ELSE "code: "
    IN  IF ~Consistent(text.types) THEN Report(which \o "one name of several types", "", text.types)
        ELSE IF ~Consistent(text.ctors) THEN Report(which \o "one name of several constructors", "", text.ctors)
        ELSE IF r.bad # <<>> THEN Report(which \o "malformed", "", r.bad)
        ELSE IF names # expected THEN Report(which \o "exports", expected, names)
        ELSE IF types # declared THEN Report(which \o "types of exports", declared, types)
        ELSE IF Unfinished(outcome) \/ Unfinished(got) \/ Same(outcome, got, text.optimised) THEN TRUE
        ELSE Report(which \o "meaning", outcome, got)

CheckCase ==
    LET c == Case
        ms == Modules(c)
        m == c.mods[Len(c.mods)]
        u == CompileToEnd(NewUnit(m.path, m.b, m.t, ms.env))
        p0 == IF c.std THEN [StdProgram EXCEPT !.out = <<>>] ELSE NoProgram
        p == Items(ms.units, p0, u, 1, c.fuel, TRUE)
        defs == TLCEval(AllDefs(ms, u))
        outcome == IF p.end = <<>> THEN <<"ok", Output(p)>> ELSE p.end
    IN  IF HasErrors(u) \/ \E x \in DOMAIN ms.units : HasErrors(ms.units[x]) THEN PrintT("SKIPPED " \o ToJson("errors"))
        ELSE IF ~Unambiguous(defs) THEN PrintT("SKIPPED " \o ToJson("ambiguous names"))
        ELSE /\ \A i \in 1..Len(c.texts) : CheckText(defs, u, outcome, c.texts[i])
             /\ PrintT("CHECKED " \o ToJson(<<outcome[1]>>))

Checking == /\ phase = "load"
            /\ TLCEval(CheckCase)
            /\ phase' = "done"
            /\ UNCHANGED id

CoreSpec == Init /\ [][Checking \/ Done]_vars
=============================================================================
