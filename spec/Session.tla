------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of an editor with the language server.  The editor opens,     *)
(* changes and closes documents, which import each other, and asks about   *)
(* them.  The server keeps what it knows about contents of files, with     *)
(* versions, and what versions each compilation has used.  What it shows   *)
(* for each open document must always be what compiling the current        *)
(* contents gives, and each question has one answer, about these.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Docs,        \* 1..n
          Texts,       \* 1..k: contents that a document may have
          MaxImports,  \* of one content
          Steps

VARIABLES imports,   \* <<document, text>> -> what is imported: a sequence of documents
          disk,      \* document -> its text on disk, or 0 if there is no such file
          files,     \* known contents: document -> [c: text or 0, v: version] or NotRead
          opened,    \* open document -> [v: version of it, deps: document -> version that was used]
          shown,     \* document -> what was last published
          replies,   \* <<what was asked: number of the step, answer>>
          life,      \* "serving", "down" after shutdown, "ended"
          log        \* what happened

vars == <<imports, disk, files, opened, shown, replies, life, log>>

ImportLists == UNION {[1..n -> Docs] : n \in 0..MaxImports}

NotRead == [c |-> 0, v |-> 0]
Nothing == <<>>

(***************************************************************************)
(* Compiling a document: a tree of what it and its imports contain.  Which *)
(* imports are in a cycle depends on what is being compiled.               *)
(***************************************************************************)
Content(fs, d) == IF fs[d] = NotRead THEN disk[d] ELSE fs[d].c

RECURSIVE Compile(_, _, _)
\* st: [t: trees so far, seen: document -> tree, used: documents, chain: documents]
Compile(fs, d, st) ==
    LET c == Content(fs, d)
        Visit(acc, x) ==
            LET cx == Content(fs, x)
            IN  IF cx = 0 THEN [acc EXCEPT !.t = Append(@, <<"missing", x>>), !.used = @ \cup {x}]
                ELSE IF x \in acc.chain THEN [acc EXCEPT !.t = Append(@, <<"cycle", x>>)]
                ELSE IF x \in DOMAIN acc.seen THEN [acc EXCEPT !.t = Append(@, acc.seen[x])]
                ELSE LET sub == Compile(fs, x, [acc EXCEPT !.chain = @ \cup {x}, !.used = @ \cup {x}])
                     IN  [acc EXCEPT !.t = Append(@, sub.t), !.used = sub.used, !.seen = (x :> sub.t) @@ sub.seen]
        r == FoldLeft(Visit, [st EXCEPT !.t = <<>>], imports[<<d, c>>])
    IN  [r EXCEPT !.t = <<"module", d, c, r.t>>]

Result(fs, d) == Compile(fs, d, [t |-> <<>>, seen |-> <<>>, used |-> {d}, chain |-> {d}])

(* -- what the server does ------------------------------------------------------ *)

Stale(fs, o, d) == o.v < fs[d].v \/ \E x \in DOMAIN o.deps : o.deps[x] < fs[x].v

\* reading what was not read yet
ReadAll(fs, ds) == [d \in Docs |-> IF d \in ds /\ fs[d] = NotRead THEN [c |-> disk[d], v |-> 1] ELSE fs[d]]

\* after some contents became known: open documents are compiled again if
\* anything that they have used has changed
Refresh(fs, op) ==
    LET stale == {d \in DOMAIN op : Stale(fs, op[d], d)}
        used == [d \in stale |-> Result(fs, d).used]
        fs2 == ReadAll(fs, UNION {used[d] : d \in stale})
    IN  /\ files' = fs2
        /\ opened' = [d \in DOMAIN op |-> IF d \in stale THEN [v |-> fs2[d].v, deps |-> [x \in used[d] |-> fs2[x].v]] ELSE op[d]]
        /\ shown' = [d \in Docs |-> IF d \in stale THEN Result(fs2, d).t ELSE shown[d]]

Set(d, c) == [files EXCEPT ![d] = [c |-> c, v |-> @.v + 1]]

Note(e) == log' = Append(log, e) /\ UNCHANGED <<imports, disk>>

Open(d, c) == /\ d \notin DOMAIN opened
              /\ Refresh(Set(d, c), (d :> [v |-> 0, deps |-> <<>>]) @@ opened)
              /\ Note(<<"open", d, c>>)
              /\ UNCHANGED <<replies, life>>

Change(d, c) == /\ d \in DOMAIN opened
                /\ Refresh(Set(d, c), opened)
                /\ Note(<<"change", d, c>>)
                /\ UNCHANGED <<replies, life>>

Close(d) == /\ d \in DOMAIN opened
            /\ opened' = [x \in DOMAIN opened \ {d} |-> opened[x]]
            /\ shown' = [shown EXCEPT ![d] = Nothing]
            /\ Note(<<"close", d, 0>>)
            /\ UNCHANGED <<files, replies, life>>

\* the answer describes the compilation that the server has
Ask(d) == /\ replies' = Append(replies, <<Len(log) + 1, shown[d]>>)
          /\ Note(<<"ask", d, 0>>)
          /\ UNCHANGED <<files, opened, shown, life>>

Shutdown == /\ life = "serving"
            /\ life' = "down"
            /\ replies' = Append(replies, <<Len(log) + 1, Nothing>>)
            /\ Note(<<"shutdown", 0, 0>>)
            /\ UNCHANGED <<files, opened, shown>>

Exit == /\ life = "down"
        /\ life' = "ended"
        /\ Note(<<"exit", 0, 0>>)
        /\ UNCHANGED <<files, opened, shown, replies>>

Begin == /\ files = [d \in Docs |-> NotRead]
         /\ opened = <<>>
         /\ shown = [d \in Docs |-> Nothing]
         /\ replies = <<>>
         /\ life = "serving"
         /\ log = <<>>

Init == /\ imports \in [Docs \X Texts -> ImportLists]
        /\ disk \in [Docs -> Texts \cup {0}]
        /\ Begin

Edit == \E d \in Docs : Close(d) \/ \E c \in Texts : Open(d, c) \/ Change(d, c)

Next == /\ Len(log) < Steps
        /\ \/ life = "serving" /\ (Edit \/ \E d \in Docs : Ask(d))
           \/ Shutdown
           \/ Exit

Spec == Init /\ [][Next]_vars

\* histories that lead to the same are not told apart
Brief == <<imports, disk, files, opened, shown, life, Len(log), Len(replies)>>

(* -- what is checked ------------------------------------------------------------ *)

Current == \A d \in DOMAIN opened : shown[d] = Result(files, d).t

ClosedEmpty == \A d \in Docs \ DOMAIN opened : shown[d] = Nothing

\* what was asked and what was answered
Asked == SelectSeq([i \in 1..Len(log) |-> <<log[i][1], i>>], LAMBDA x: x[1] \in {"ask", "shutdown"})
Answered == /\ Len(replies) = Len(Asked)
            /\ \A i \in 1..Len(replies) : replies[i][1] = Asked[i][2]

\* contents are never forgotten
Kept == [][\A d \in Docs : files[d].v <= files'[d].v]_vars
=============================================================================
