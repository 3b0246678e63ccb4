------------------------------ MODULE GraphCases ------------------------------
(***************************************************************************)
(* What the command line compiler does with a directory of files.  Modules *)
(* are analysed one item at a time; an import is looked up in the file     *)
(* system when its item is reached, and a module that was not seen yet is  *)
(* analysed first (as in module Loader, here with all that modules are).   *)
(***************************************************************************)
EXTENDS Eval, Graphs, Json, IOUtils

CONSTANT CasesFile, StdFile

Cases == ndJsonDeserialize(CasesFile)
Std == ndJsonDeserialize(StdFile)

RECURSIVE AddUnits(_, _, _, _)
AddUnits(ms, i, env, units) ==
    IF i > Len(ms) THEN [env |-> env, units |-> units]
    ELSE LET m == TLCEval(Finish(NewUnit(ms[i].path, ms[i].b, ms[i].t, env)))
         IN  AddUnits(ms, i + 1,
                [find |-> (ms[i].path :> <<"ok", ms[i].path>>) @@ env.find,
                 mods |-> (ms[i].path :> [exports |-> m.exports, types |-> m.types]) @@ env.mods],
                (ms[i].path :> m.unit) @@ units)

NoEnv == [find |-> [x \in {} |-> 0], mods |-> [x \in {} |-> 0]]
StdUnits == AddUnits(Std, 1, NoEnv, [x \in {} |-> 0])
StdProgram == FoldLeft(LAMBDA p, m: Module(StdUnits.units, p, m.path, 100, FALSE), NoProgram, Std)

(* -- file systems ------------------------------------------------------------ *)

\* fs: entries [p: place, k: "dir", "file", "text" (not UTF-8), "link", to: path]
Entry(fs, p) == LET I == {i \in 1..Len(fs) : fs[i].p = p} IN IF I = {} THEN [k |-> "none"] ELSE fs[CHOOSE i \in I : TRUE]

\* what is at a path: <<kind, place>>.  links: how many may be followed
RECURSIVE WalkTo(_, _, _, _)
WalkTo(fs, dir, path, links) ==
    IF path = <<>> THEN <<"dir", dir>>
    ELSE LET h == Head(path)
             rest == Tail(path)
             p == Append(dir, h)
             e == Entry(fs, p)
         IN  CASE h \in {"", "."} -> WalkTo(fs, dir, rest, links)
               [] h = ".." /\ dir = <<>> -> <<"none", dir>>      \* nothing is there
               [] h = ".." -> WalkTo(fs, SubSeq(dir, 1, Len(dir) - 1), rest, links)
               [] e.k = "dir" -> WalkTo(fs, p, rest, links)
               [] e.k = "link" -> IF links = 0 THEN <<"loop", p>> ELSE WalkTo(fs, dir, e.to \o rest, links - 1)
               [] e.k \in {"file", "binary"} -> IF rest = <<>> THEN <<e.k, p>> ELSE <<"notdir", p>>
               [] OTHER -> <<"none", p>>

\* a place as text (unlike names of standard modules)
Joined(p) == FoldLeft(LAMBDA acc, x: acc \o "/" \o x, "", p)

IoError(kind) ==
    "failed to read module: " \o
    CASE kind = "dir" -> "Is a directory (os error 21)"
      [] kind = "notdir" -> "Not a directory (os error 20)"
      [] kind = "none" -> "No such file or directory (os error 2)"
      [] kind = "loop" -> "Too many levels of symbolic links (os error 40)"
      [] kind = "binary" -> "stream did not contain valid UTF-8"

(* -- loading ------------------------------------------------------------------ *)

VARIABLES id, phase,
          frames,     \* modules being analysed: [u: unit, path: as it was opened, at: place, im: imports so far]
          loaded,      \* place -> unit of a loaded module
          world,        \* exports and types of loaded modules
          graph,      \* place -> places of what it imports, or "missing"
          first       \* [path, unit] of the first module found to have errors, or <<>>

vars == <<id, phase, frames, loaded, world, graph, first>>

Case == Cases[id]

NewFrame(path, at) ==
    LET e == Entry(Case.fs, at)
    IN  [u |-> NewUnit(Joined(at), e.b, e.t, [find |-> NoEnv.find, mods |-> world.mods]), path |-> path, at |-> at, im |-> <<>>]

Init == /\ id \in 1..Len(Cases)
        /\ phase = "start"
        /\ frames = <<>>
        /\ loaded = [x \in {} |-> 0]
        /\ world = NoEnv
        /\ graph = [x \in {} |-> 0]
        /\ first = <<>>

Begin == /\ phase = "start"
         /\ frames' = <<NewFrame(Case.root, WalkTo(Case.fs, <<>>, Case.root, 40)[2])>>
         /\ phase' = "load"
         /\ UNCHANGED <<id, loaded, world, graph, first>>

Top == frames[Len(frames)]
Under == SubSeq(frames, 1, Len(frames) - 1)

\* text of the import that is the next item of a unit, or <<>>
NextImport(u) ==
    LET p == TLCEval(ParseItem(u.T, u.i, u.pos, Len(u.b)))
        x == FirstItem(p.c, 1)
        path == Token(x, "STR")
    IN  IF x.n = "ImportItem" /\ Present(path) THEN <<Unquote(path.x)>> ELSE <<>>

Linked(text, what, target) ==
    Append(Under, [Top EXCEPT !.u.env.find = (text :> what) @@ @, !.im = Append(@, target)])

FollowImport ==
    LET text == NextImport(Top.u)[1]
        path == SubSeq(Top.path, 1, Len(Top.path) - 1) \o Case.split[text]
        w == WalkTo(Case.fs, <<>>, path, 40)
        name == Joined(w[2])
    IN  IF \E i \in 1..Len(Std) : Std[i].path = text
        THEN frames' = Append(Under, [Top EXCEPT !.u.env.find = (text :> <<"ok", text>>) @@ @])
        ELSE IF w[1] # "file" THEN frames' = Linked(text, <<"error", IoError(w[1])>>, "missing")
        ELSE IF \E i \in 1..Len(frames) : frames[i].at = w[2]
        THEN frames' = Linked(text, <<"error", "import cycle">>, name)
        ELSE IF name \in DOMAIN loaded THEN frames' = Linked(text, <<"ok", name>>, name)
        ELSE frames' = Append(frames, NewFrame(path, w[2]))

\* standard modules are known everywhere (and are not kept in states)
NextItem(u) ==
    IF Case.std
    THEN [CompileNext([u EXCEPT !.env = [find |-> @.find, mods |-> @.mods @@ StdUnits.env.mods]]) EXCEPT !.env = u.env]
    ELSE CompileNext(u)

WithStd(u) == IF Case.std THEN [u EXCEPT !.env.mods = @ @@ StdUnits.env.mods] ELSE u

Finished ==
    LET u == Top.u
        m == TLCEval(Finish(WithStd(u)))
        name == Joined(Top.at)
    IN  /\ loaded' = (name :> u) @@ loaded
        /\ world' = [world EXCEPT !.mods = (name :> [exports |-> m.exports, types |-> m.types]) @@ @]
        /\ graph' = (name :> Top.im) @@ graph
        /\ first' = IF first = <<>> /\ HasErrors(u) THEN <<[path |-> Top.path, u |-> u]>> ELSE first
        /\ IF Under = <<>> THEN frames' = <<>> /\ phase' = "report"
           ELSE /\ frames' = [Under EXCEPT ![Len(Under)].u.env.mods = world'.mods]
                /\ phase' = phase

LoadStep == /\ phase = "load"
            /\ IF Complete(Top.u) THEN Finished
               ELSE /\ LET t == NextImport(Top.u)
                       IN  IF t # <<>> /\ t[1] \notin DOMAIN Top.u.env.find THEN FollowImport
                           ELSE frames' = Append(Under, [Top EXCEPT !.u = NextItem(Top.u)])
                    /\ UNCHANGED <<phase, loaded, world, graph, first>>
            /\ UNCHANGED id

(* -- what is observed ----------------------------------------------------------- *)

RootName == Joined(WalkTo(Case.fs, <<>>, Case.root, 40)[2])

Value ==
    LET p0 == IF Case.std THEN [StdProgram EXCEPT !.out = <<>>] ELSE NoProgram
        all == IF Case.std THEN StdUnits.units @@ loaded ELSE loaded
        p == Items(all, p0, loaded[RootName], 1, Case.fuel, TRUE)
    IN  IF p.end = <<>> THEN <<"ok", Output(p)>> ELSE p.end

Report == /\ phase = "report"
          /\ PrintT("GRAPH " \o ToJson(
                IF first # <<>>
                THEN [id |-> Case.id, ok |-> FALSE, path |-> first[1].path, diags |-> Diagnostics(first[1].u), value |-> <<>>,
                      modules |-> Cardinality(DOMAIN graph)]
                ELSE [id |-> Case.id, ok |-> TRUE, path |-> Case.root, diags |-> Diagnostics(loaded[RootName]), value |-> Value,
                      modules |-> Cardinality(DOMAIN graph)]))
          /\ phase' = "done"
          /\ UNCHANGED <<id, frames, loaded, world, graph, first>>

Done == phase = "done" /\ UNCHANGED vars

Next == Begin \/ LoadStep \/ Report \/ Done

Spec == Init /\ [][Next]_vars

\* states of a case differ in how far it got
Progress == <<id, phase, Len(frames), [i \in 1..Len(frames) |-> <<frames[i].at, frames[i].u.pos, Len(frames[i].im)>>],
              DOMAIN graph, IF frames = <<>> THEN {} ELSE DOMAIN Top.u.env.find>>

(* -- what is checked of the specification --------------------------------------- *)

Chain == \A i, j \in 1..Len(frames) : frames[i].at = frames[j].at => i = j

\* errors that are not about what an import refers to
Importing == {"import cycle"} \cup {IoError(k) : k \in {"dir", "notdir", "none", "loop", "binary"}}

Bad == {f \in DOMAIN graph :
            LET er == ItemErrors(loaded[f].items)
            IN  \E i \in 1..Len(er) : LET m == er[i].m[1] IN
                    ~(m[1] = "txt" /\ m[2] \in Importing)}

Decided == phase = "report" => (first = <<>>) = Acceptable(graph, "missing", Bad, RootName)
=============================================================================
