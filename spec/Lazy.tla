-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* A document that is analysed item by item, and only as far as a query    *)
(* needs.  Item k names k; uses[k] are the items it mentions (itself, or   *)
(* earlier ones).  Whatever was asked before, a query has the answer it    *)
(* has when everything is analysed.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* items
          Steps     \* length of histories

Items == 1..N
At == {"def", "refs", "info", "comp"}             \* asked about a position
Whole == {"diags", "toks", "ir", "eval"}          \* asked about the document
Queries == {<<k, i>> : k \in At, i \in Items} \cup {<<k, 0>> : k \in Whole}

VARIABLES uses,     \* the document
          done,     \* how many items are analysed
          asked,    \* queries so far
          answers

vars == <<uses, done, asked, answers>>

\* how far the document has to be analysed for an answer.  Any item that
\* begins at the position may be meant, so all but completion take it all
Need(q) == IF q[1] = "comp" THEN q[2] ELSE N

\* what an analysis of the first n items can tell
Answer(q, n) ==
    LET k == q[2]
    IN  CASE q[1] = "def" -> IF k <= n THEN {k} \cup uses[k] ELSE {}
          [] q[1] = "refs" -> {j \in 1..n : k \in uses[j]}
          [] q[1] = "info" -> IF k <= n THEN {k} \cup uses[k] ELSE {}
          [] q[1] = "comp" -> {j \in 1..n : j <= k}
          [] q[1] = "diags" -> {j \in 1..n : \A i \in 1..n : j \notin uses[i]}
          [] OTHER -> 1..n

Init == /\ uses \in [Items -> SUBSET Items]
        /\ \A k \in Items : \A j \in uses[k] : j <= k
        /\ done = 0
        /\ asked = <<>>
        /\ answers = <<>>

Max(a, b) == IF a > b THEN a ELSE b

Ask(q) == /\ Len(asked) < Steps
          /\ done' = Max(done, Need(q))
          /\ asked' = Append(asked, q)
          /\ answers' = Append(answers, Answer(q, done'))
          /\ UNCHANGED uses

Next == \E q \in Queries : Ask(q)

Spec == Init /\ [][Next]_vars

(* -- what is checked ---------------------------------------------------------- *)

\* the answer at a position may not depend on items after the one it is in,
\* if it does not ask for all of them
Lazy == \A i \in 1..Len(asked) : answers[i] = Answer(asked[i], N)

Same == \A i, j \in 1..Len(asked) : asked[i] = asked[j] => answers[i] = answers[j]

Monotone == [][done <= done']_vars

(* -- histories for the real thing --------------------------------------------- *)

\* one document is enough for that
One == uses = [k \in Items |-> 1..k]
GenInit == Init /\ One
GenSpec == GenInit /\ [][Next]_vars

Shown == Len(asked) < Steps \/ PrintT("SCRIPT " \o ToJson([script |-> asked, done |-> done]))
=============================================================================
