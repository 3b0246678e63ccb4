----------------------------- MODULE SessionRuns -----------------------------
(***************************************************************************)
(* Random sessions over given sets of documents: what the editor does, and *)
(* what has to be shown, or answered, after each step.                     *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

CONSTANT SetupsFile

\* [imports: document -> text -> sequence of documents, disk: document -> text]
Setups == ndJsonDeserialize(SetupsFile)

VARIABLES id,
          wanted     \* after each step: pairs of an open document and its tree

rvars == <<vars, id, wanted>>

RInit == /\ id \in 1..Len(Setups)
         /\ imports = [x \in Docs \X Texts |-> Setups[id].imports[x[1]][x[2]]]
         /\ disk = [d \in Docs |-> Setups[id].disk[d]]
         /\ Begin
         /\ wanted = <<>>

\* most sessions are not ended early
RNext == /\ Next
         /\ life' # life => Len(log) + 2 >= Steps
         /\ wanted' = Append(wanted, [d \in Docs |-> shown'[d]])
         /\ UNCHANGED id

RSpec == RInit /\ [][RNext]_rvars

\* a behaviour is printed when it is as long as it may be
Shown == (Len(log) < Steps /\ life # "ended") \/ PrintT("SESSION " \o ToJson([id |-> id, log |-> log, wanted |-> wanted]))
=============================================================================
