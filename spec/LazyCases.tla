------------------------------ MODULE LazyCases ------------------------------
(***************************************************************************)
(* Histories of queries about real sources.  The unit is analysed only as  *)
(* far as each query needs; recorded answers are compared with the ones    *)
(* that the complete unit has.                                             *)
(***************************************************************************)
EXTENDS FrontCases

VARIABLES full, step

lvars == <<id, unit, phase, full, step>>

Queries == Cases[id].script
Answers == Cases[id].answers

\* enough of the source for the answer: an item that ends at the position
\* can be continued there
Enough(q) == IF q[1] = "comp" THEN q[2] ELSE Len(full.b)

RECURSIVE UpTo(_, _)
UpTo(u, p) == IF Complete(u) \/ u.pos >= p THEN u ELSE UpTo(TLCEval(CompileNext(u)), p)

AnswerOf(u, q) ==
    CASE q[1] = "def" -> Definition(u, q[2])
      [] q[1] = "refs" -> References(u, q[2])
      [] q[1] = "info" -> Info(u, q[2])
      [] q[1] = "comp" -> Completions(u, q[2])
      [] q[1] = "diags" -> Diagnostics(u)
      [] q[1] = "toks" -> SemanticTokens(u)
      [] OTHER -> <<>>

LInit == Init /\ full = <<>> /\ step = 0

LLoad == Load /\ UNCHANGED <<full, step>>

\* the whole is known to the specification from the beginning
LAnalyse == /\ phase = "analyse"
            /\ full' = UpTo(unit, Len(unit.b))
            /\ phase' = "ask"
            /\ UNCHANGED <<id, unit, step>>

Agrees(q, expected, got) ==
    CASE q[1] \in {"ir", "eval"} -> TRUE
      [] q[1] = "comp" -> IF expected = None \/ got = <<>> THEN expected = got
                          ELSE expected[1] = {got[1][i] : i \in 1..Len(got[1])} /\ Len(got[1]) = Cardinality(expected[1])
      [] OTHER -> expected = got

Ask == /\ phase = "ask"
       /\ step < Len(Queries)
       /\ step' = step + 1
       /\ unit' = UpTo(unit, Enough(Queries[step + 1]))
       /\ LET q == Queries[step + 1]
              e == AnswerOf(full, q)
              g == Answers[step + 1]
          IN  (IF Agrees(q, e, g) THEN TRUE
               ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[id].id, what |-> q[1], step |-> step + 1, query |-> q,
                                                  expected |-> e, got |-> g]))) \in BOOLEAN
       /\ UNCHANGED <<id, phase, full>>

LDone == phase = "ask" /\ step = Len(Queries) /\ UNCHANGED lvars

LNext == LLoad \/ LAnalyse \/ Ask \/ LDone

LSpec == LInit /\ [][LNext]_lvars

(* -- what is checked of the specification itself ------------------------------- *)

\* what is analysed lazily is a part of the whole
Prefix == phase = "ask" =>
    /\ Len(unit.items) <= Len(full.items)
    /\ unit.items = SubSeq(full.items, 1, Len(unit.items))

\* and the part is enough for the answer
FromPart == phase = "ask" /\ step > 0 =>
    LET q == Queries[step] IN q[1] \in {"ir", "eval"} \/ AnswerOf(unit, q) = AnswerOf(full, q)
=============================================================================
