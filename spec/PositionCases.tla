---------------------------- MODULE PositionCases ----------------------------
(***************************************************************************)
(* Answers of the language server, in positions of the editor, are         *)
(* compared with answers of the compiler, in offsets.                      *)
(***************************************************************************)
EXTENDS Positions, FiniteSets, Json, IOUtils

CONSTANT CasesFile

Cases == ndJsonDeserialize(CasesFile)

VARIABLES id, places, lines, table, phase

vars == <<id, places, lines, table, phase>>

Case == Cases[id]
Text == Case.text

Init == /\ id \in 1..Len(Cases)
        /\ places = <<>> /\ lines = <<>> /\ table = <<>>
        /\ phase = "load"

Load == /\ phase = "load"
        /\ LET ps == TLCEval(Places(Text))
           IN  places' = ps /\ lines' = TLCEval(Lines(ps)) /\ table' = TLCEval(LspTable(ps))
        /\ phase' = "compare"
        /\ UNCHANGED id

Mismatch(what, about, expected, got) ==
    PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> what, about |-> about, expected |-> expected, got |-> got]))

Check(ok, what, about, expected, got) == IF ok THEN TRUE ELSE Mismatch(what, about, expected, got)

(* -- offsets as the editor may be told about them ------------------------------ *)

At(o) == IF o \in DOMAIN table THEN table[o] ELSE <<-1, -1>>

\* the end of a line may be before or after CR
Allowed(o) ==
    LET i == IF o \in DOMAIN table THEN CHOOSE i \in 1..Len(places) : places[i].off = o ELSE 1
    IN  IF i > 1 /\ i <= Len(Text) /\ Text[i] = LF /\ Text[i - 1] = CR
        THEN {At(o), <<places[i - 1].line, places[i - 1].col>>} ELSE {At(o)}

\* r: <<line, column, line, column>>
SameRange(s, e, r) == <<r[1], r[2]>> \in Allowed(s) /\ <<r[3], r[4]>> \in Allowed(e)

Place(s, e) == At(s) \o At(e)

(* -- answers -------------------------------------------------------------------- *)

RunAt(runs, p) ==
    LET Later(acc, i) == IF runs[i][1] <= p THEN i ELSE acc
    IN  runs[FoldLeft(Later, 1, [i \in 1..Len(runs) |-> i])][2]

SameRanges(spans, got) ==
    /\ Len(spans) = Len(got)
    /\ \A i \in 1..Len(spans) : \E j \in 1..Len(got) : SameRange(spans[i][1], spans[i][2], got[j])
    /\ \A j \in 1..Len(got) : \E i \in 1..Len(spans) : SameRange(spans[i][1], spans[i][2], got[j])

\* ask: <<kind, line, character, answer>>.  Whether it is what the compiler says about an offset
Answers(ask, o) ==
    LET kind == ask[1]
        got == ask[4]
        def == RunAt(Case.def, o)
        refs == RunAt(Case.refs, o)
        info == RunAt(Case.info, o)
    IN  CASE kind \in {"def", "decl"} ->
                IF def = <<>> THEN got = <<>> ELSE got # <<>> /\ SameRange(def[1], def[2], got[1])
          [] kind = "refs" ->
                IF refs = <<>> THEN got = <<>> ELSE got # <<>> /\ SameRanges(refs[1], got[1])
          [] kind = "all" ->
                IF refs = <<>> THEN got = <<>>
                ELSE got # <<>> /\ SameRanges(refs[1] \o (IF def = <<>> THEN <<>> ELSE <<def>>), got[1])
          [] kind = "info" ->
                IF info = <<>> THEN got = <<>>
                ELSE got # <<>> /\ SameRange(info[1], info[2], got[1]) /\ info[3] = got[2]
          [] kind = "comp" ->
                LET c == Case.comp[o + 1]
                IN  IF c = <<>> \/ got = <<>> THEN c = got
                    ELSE {c[1][i] : i \in 1..Len(c[1])} = {got[1][i] : i \in 1..Len(got[1])}

Asked(ask) ==
    LET os == Offsets(Text, places, lines, ask[2], ask[3])
    IN  Check(\E o \in os : Answers(ask, o), ask[1], <<ask[2], ask[3], os>>,
              [o \in {"def", "refs", "info"} |->
                 RunAt(CASE o = "def" -> Case.def [] o = "refs" -> Case.refs [] OTHER -> Case.info, CHOOSE x \in os : TRUE)],
              ask[4])

(* -- what is about the document ----------------------------------------------------- *)

\* d: <<start, end, severity, message>>, g: <<range, severity, message>>
SameDiagnostic(d, g) == SameRange(d[1], d[2], g[1]) /\ d[3] = g[2] /\ d[4] = g[3]

Diagnosed ==
    LET ds == Case.diags
        gs == Case.published
    IN  Check(/\ Len(ds) = Len(gs)
              /\ \A i \in 1..Len(ds) : \E j \in 1..Len(gs) : SameDiagnostic(ds[i], gs[j])
              /\ \A j \in 1..Len(gs) : \E i \in 1..Len(ds) : SameDiagnostic(ds[i], gs[j]),
              "diags", 0, [i \in 1..Len(ds) |-> <<Place(ds[i][1], ds[i][2]), ds[i][3], ds[i][4]>>], gs)

TypeName(k) ==
    CASE k = "value" -> "variable"
      [] k = "ctor" -> "type"
      [] k = "typevar" -> "typeParameter"
      [] k = "punct" -> "punctuation"
      [] OTHER -> k

\* tokens are encoded relatively to the previous ones
Decoded(data) ==
    LET Next(acc, x) ==
            LET l == acc.line + x[1]
                c == IF x[1] = 0 THEN acc.col + x[2] ELSE x[2]
            IN  [line |-> l, col |-> c, out |-> Append(acc.out, <<l, c, x[3], x[4]>>)]
    IN  FoldLeft(Next, [line |-> 0, col |-> 0, out |-> <<>>], data).out

\* how many units there are from one offset to another
UnitsIn(s, e) ==
    FoldLeft(LAMBDA acc, i: IF places[i].off >= s /\ places[i].off < e THEN acc + Units(Text[i]) ELSE acc, 0,
             [i \in 1..Len(Text) |-> i])

\* the token has an end of a line in it, or CR of one at its end
LineInside(s, e) == \E i \in 1..Len(Text) : places[i].off >= s /\ places[i].off < e /\ Text[i] \in {LF, CR}

SameToken(k, g) ==
    /\ <<g[1], g[2]>> \in Allowed(k[1])
    /\ g[3] = UnitsIn(k[1], k[2]) \/ LineInside(k[1], k[2])
    /\ g[4] = TypeName(k[3])

Coloured ==
    LET ks == Case.toks
        gs == Decoded(Case.coloured)
    IN  /\ Check(Len(ks) = Len(gs), "toks", "number", Len(ks), Len(gs))
        /\ Len(ks) = Len(gs) =>
            \A i \in 1..Len(ks) : Check(SameToken(ks[i], gs[i]), "toks", i, <<At(ks[i][1]), UnitsIn(ks[i][1], ks[i][2]), ks[i]>>, gs[i])

Compare == /\ phase = "compare"
           /\ (/\ \A i \in 1..Len(Case.asks) : Asked(Case.asks[i])
               /\ "published" \in DOMAIN Case => Diagnosed
               /\ "coloured" \in DOMAIN Case => Coloured) \in BOOLEAN
           /\ phase' = "done"
           /\ places' = <<>> /\ lines' = <<>> /\ table' = <<>>
           /\ UNCHANGED id

Next == Load \/ Compare

Spec == Init /\ [][Next]_vars
=============================================================================
