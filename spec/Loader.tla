------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading of a graph of modules, depth first.  A module is loaded when it *)
(* is imported for the first time.  Importing a module that is being       *)
(* loaded is an error in the importing one, and so is importing a file     *)
(* that cannot be read.  The first module which turns out to have errors   *)
(* is the one that is reported.                                            *)
(***************************************************************************)
EXTENDS Graphs, FiniteSets

CONSTANTS Files, Root, Missing

VARIABLES imports,   \* file -> what it imports, in order
          bad,       \* files with errors of their own
          stack,     \* modules being loaded: [f, i: next import, e: has errors]
          cache,     \* loaded modules -> whether they have errors
          loads,     \* file -> how many times it was loaded
          first      \* the first one found to have errors, or Missing

vars == <<imports, bad, stack, cache, loads, first>>

Frame(f) == [f |-> f, i |-> 1, e |-> f \in bad]

\* imports and bad are given
Start == /\ stack = <<Frame(Root)>>
         /\ cache = <<>>
         /\ loads = [f \in Files |-> IF f = Root THEN 1 ELSE 0]
         /\ first = Missing

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
InProgress == {stack[k].f : k \in 1..Len(stack)}
Importing == stack # <<>> /\ Top.i <= Len(imports[Top.f])
Target == imports[Top.f][Top.i]

Advance(e) == stack' = Append(Below, [Top EXCEPT !.i = @ + 1, !.e = @ \/ e])

Fail == /\ Importing
        /\ Target = Missing \/ Target \in InProgress
        /\ Advance(TRUE)
        /\ UNCHANGED <<cache, loads, first>>

Reuse == /\ Importing
         /\ Target # Missing /\ Target \notin InProgress
         /\ Target \in DOMAIN cache
         /\ Advance(FALSE)
         /\ UNCHANGED <<cache, loads, first>>

Load == /\ Importing
        /\ Target # Missing /\ Target \notin InProgress
        /\ Target \notin DOMAIN cache
        /\ stack' = Append(stack, Frame(Target))
        /\ loads' = [loads EXCEPT ![Target] = @ + 1]
        /\ UNCHANGED <<cache, first>>

Finished == /\ stack # <<>>
            /\ ~Importing
            /\ cache' = [f \in DOMAIN cache \cup {Top.f} |-> IF f = Top.f THEN Top.e ELSE cache[f]]
            /\ first' = IF first = Missing /\ Top.e THEN Top.f ELSE first
            /\ stack' = IF Below = <<>> THEN <<>>
                        ELSE [Below EXCEPT ![Len(Below)].i = @ + 1]
            /\ UNCHANGED loads

Next == (Fail \/ Reuse \/ Load \/ Finished) /\ UNCHANGED <<imports, bad>>

Spec == Start /\ [][Next]_vars /\ WF_vars(Next)

(* -- what is checked ---------------------------------------------------------- *)

Done == stack = <<>>

After(f) == Following(imports, Missing, f)
Reached == Reach(imports, Missing, {Root})
Succeeds == Acceptable(imports, Missing, bad, Root)

Decided == Done => (first = Missing) = Succeeds

Once == \A f \in Files : loads[f] <= 1 /\ (Done => loads[f] = IF f \in Reached THEN 1 ELSE 0)

Chain == \A j, k \in 1..Len(stack) : stack[j].f = stack[k].f => j = k

NoReload == DOMAIN cache \cap InProgress = {}

\* the reported module is itself at fault, and all that it imports is loaded
\* without errors or is what it depends on in a cycle
AtFault == first # Missing =>
    /\ \/ first \in bad
       \/ \E i \in 1..Len(imports[first]) : imports[first][i] = Missing
       \/ first \in After(first)
    /\ \A f \in After(first) : f \in DOMAIN cache /\ cache[f] => first \in After(f) \/ first # f

Terminates == <>Done
=============================================================================
