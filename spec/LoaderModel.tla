----------------------------- MODULE LoaderModel -----------------------------
(* All small graphs of modules. *)
EXTENDS Loader

CONSTANT MaxImports

None == Missing

Lists == UNION {[1..n -> Files \cup {Missing}] : n \in 0..MaxImports}

MInit == /\ imports \in [Files -> Lists]
         /\ bad \in SUBSET Files
         /\ Start

MSpec == MInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
