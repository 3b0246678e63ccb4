------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graphs of modules: imports maps a file to the sequence of what it       *)
(* imports, where `missing' stands for all that cannot be read.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE Reach(_, _, _)
Reach(imports, missing, S) ==
    LET T == S \cup UNION {{imports[f][i] : i \in 1..Len(imports[f])} \ {missing} : f \in S}
    IN  IF T = S THEN S ELSE Reach(imports, missing, T)

\* what is reached from a file by at least one import
Following(imports, missing, f) ==
    Reach(imports, missing, {imports[f][i] : i \in 1..Len(imports[f])} \ {missing})

\* nothing that is reachable has errors of its own, imports something that
\* cannot be read, or imports itself, directly or not
Acceptable(imports, missing, bad, root) ==
    \A f \in Reach(imports, missing, {root}) :
        /\ f \notin bad
        /\ f \notin Following(imports, missing, f)
        /\ \A i \in 1..Len(imports[f]) : imports[f][i] # missing
=============================================================================
