----------------------------- MODULE FrontCases -----------------------------
(***************************************************************************)
(* Compares the front end with recorded observations of the compiler.      *)
(* A behaviour analyses one source item by item and then compares answers  *)
(* to all queries.  Each mismatch is printed as a line of JSON.            *)
(***************************************************************************)
EXTENDS Front, Json, IOUtils

CONSTANT CasesFile, StdFile

Cases == ndJsonDeserialize(CasesFile)
Std == ndJsonDeserialize(StdFile)

\* std modules: each may use only the previous ones
RECURSIVE AddModules(_, _, _)
AddModules(ms, i, env) ==
    IF i > Len(ms) THEN env
    ELSE LET m == TLCEval(Finish(NewUnit(ms[i].path, ms[i].b, ms[i].t, env)))
         IN  AddModules(ms, i + 1,
                [find |-> (ms[i].path :> <<"ok", ms[i].path>>) @@ env.find,
                 mods |-> (ms[i].path :> [exports |-> m.exports, types |-> m.types]) @@ env.mods])

NoEnv == [find |-> ("cycle" :> <<"error", "import cycle">>)
                   @@ ("io" :> <<"error", "failed to read module: broken">>),
          mods |-> [x \in {} |-> 0]]

StdEnv == AddModules(Std, 1, NoEnv)

VARIABLES id, unit, phase

vars == <<id, unit, phase>>

Init == /\ id \in 1..Len(Cases)
        /\ unit = <<>>
        /\ phase = "load"

Report(what, expected, got) ==
    PrintT("MISMATCH " \o ToJson([id |-> Cases[id].id, what |-> what, expected |-> expected, got |-> got]))

Same(what, expected, got) == expected = got \/ Report(what, expected, got)

Load == /\ phase = "load"
        /\ LET ms == Cases[id].mods
               env == AddModules(SubSeq(ms, 1, Len(ms) - 1), 1, IF Cases[id].std THEN StdEnv ELSE NoEnv)
               m == ms[Len(ms)]
           IN  unit' = NewUnit(m.path, m.b, m.t, env)
        /\ phase' = "analyse"
        /\ UNCHANGED id

Analyse == /\ phase = "analyse"
           /\ IF Complete(unit)
              THEN phase' = "compare" /\ UNCHANGED unit
              ELSE unit' = CompileNext(unit) /\ UNCHANGED phase
           /\ UNCHANGED id

(***************************************************************************)
(* Answers at all positions are observed as runs: <<first position,        *)
(* answer>>.  An answer can only change at the bounds of some span, so it  *)
(* is compared at these, and runs must start only there.                   *)
(***************************************************************************)
Bounds(xs) == UNION {{x.s, x.e + 1} : x \in {xs[i] : i \in 1..Len(xs)}}

ItemBounds(items) ==
    UNION {LET it == items[i]
           IN  {it.s, it.e, it.e + 1} \cup Bounds(it.r) \cup Bounds(it.d)
               \cup Bounds(Descendants(it.c, 1, ExprNodes)) : i \in 1..Len(items)}

RunAt(runs, p) ==
    LET J == {j \in 1..Len(runs) : runs[j][1] <= p}
    IN  runs[CHOOSE j \in J : \A k \in J : k <= j][2]

CompareRuns(what, runs, bounds, Answer(_)) ==
    /\ \A p \in bounds :
        LET a == Answer(p)
            o == RunAt(runs, p)
        IN  a = o \/ Report(what, <<p, a>>, <<p, o>>)
    /\ \A i \in 1..Len(runs) :
        runs[i][1] \in bounds \/ Report(what, <<"unchanged at", runs[i][1]>>, runs[i])

CompareCompletion(x) ==
    LET got == Completions(unit, x[1])
        ok == IF got = None \/ x[2] = <<>> THEN got = x[2]
              ELSE /\ got[1] = {x[2][1][i] : i \in 1..Len(x[2][1])}
                   /\ Len(x[2][1]) = Cardinality(got[1])
    IN  ok \/ Report("comp", <<x[1], got>>, x)

(***************************************************************************)
(* What has to hold of any observation: spans lie in the source, at bounds *)
(* of characters, and tokens are in order.                                 *)
(***************************************************************************)
GoodSpan(s, e) == 0 <= s /\ s <= e /\ e <= Len(unit.b) /\ CharBoundary(unit.b, s) /\ CharBoundary(unit.b, e)

GoodSpans(what, spans) ==
    \A i \in 1..Len(spans) : GoodSpan(spans[i][1], spans[i][2]) \/ Report("span", what, spans[i])

GoodAnswers(what, runs) ==
    \A i \in 1..Len(runs) :
        \/ runs[i][2] = <<>>
        \/ GoodSpan(runs[i][2][1], runs[i][2][2])
        \/ Report("span", what, runs[i])

ObservedSpans ==
    LET c == Cases[id].obs
    IN  /\ "diags" \in DOMAIN c => GoodSpans("diags", c.diags)
        /\ "toks" \in DOMAIN c =>
            /\ GoodSpans("toks", c.toks)
            /\ \A i \in 2..Len(c.toks) :
                c.toks[i - 1][2] <= c.toks[i][1] \/ Report("span", "order of tokens", c.toks[i])
            /\ \A i \in 1..Len(c.toks) :
                c.toks[i][1] < c.toks[i][2] \/ Report("span", "empty token", c.toks[i])
        /\ "def" \in DOMAIN c => GoodAnswers("def", c.def)
        /\ "info" \in DOMAIN c => GoodAnswers("info", c.info)
        /\ "refs" \in DOMAIN c =>
            \A i \in 1..Len(c.refs) : c.refs[i][2] = <<>> \/ GoodSpans("refs", c.refs[i][2][1])

Comparison ==
              LET c == Cases[id].obs
                  bounds == {p \in ItemBounds(unit.items) : p < Len(unit.b) + 3} \cup {0}
              IN  /\ "diags" \in DOMAIN c => Same("diags", Diagnostics(unit), c.diags)
                  /\ "toks" \in DOMAIN c => Same("toks", SemanticTokens(unit), c.toks)
                  /\ "def" \in DOMAIN c => CompareRuns("def", c.def, bounds, LAMBDA p: Definition(unit, p))
                  /\ "refs" \in DOMAIN c => CompareRuns("refs", c.refs, bounds, LAMBDA p: References(unit, p))
                  /\ "info" \in DOMAIN c => CompareRuns("info", c.info, bounds, LAMBDA p: Info(unit, p))
                  /\ "comp" \in DOMAIN c => \A i \in 1..Len(c.comp) : CompareCompletion(c.comp[i])

Compare == /\ phase = "compare"
           /\ (IF Cases[id].spans THEN ObservedSpans ELSE Comparison) \in BOOLEAN
           /\ phase' = "done"
           /\ unit' = <<>>
           /\ UNCHANGED id

Done == phase = "done" /\ UNCHANGED vars

Next == Load \/ Analyse \/ Compare \/ Done

Spec == Init /\ [][Next]_vars

(* -- what holds in every state, whatever the source ------------------------ *)

SpanOk(x) == 0 <= x.s /\ x.s <= x.e /\ x.e <= Len(unit.b)

\* items tile the analysed part of the source
Tiles == phase = "analyse" =>
    /\ \A i \in 1..Len(unit.items) :
        unit.items[i].s = (IF i = 1 THEN 0 ELSE unit.items[i - 1].e) /\ unit.items[i].s < unit.items[i].e
    /\ unit.pos = (IF unit.items = <<>> THEN 0 ELSE Last(unit.items).e)

\* spans are within the source
Spans == phase = "analyse" =>
    \A i \in 1..Len(unit.items) :
        LET it == unit.items[i]
        IN  /\ \A j \in 1..Len(it.r) : SpanOk(it.r[j])
            /\ \A j \in 1..Len(it.d) : SpanOk(it.d[j])
            /\ \A j \in 1..Len(it.er) : SpanOk(it.er[j])

\* every use is of a definition that is known at that point
UsesDefined == phase = "analyse" =>
    \A i \in 1..Len(unit.items) : \A j \in 1..Len(unit.items[i].r) :
        unit.items[i].r[j].sym \in DOMAIN unit.defs
=============================================================================
