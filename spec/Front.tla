------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The front end: a compilation unit is analysed item by item.  This       *)
(* module has the step that analyses the next item (CompileNext), lints,   *)
(* exports of complete units and answers to queries about a unit.          *)
(***************************************************************************)
EXTENDS Types

\* A unit before any of its items is analysed.  env: [find, mods]
NewUnit(mod, b, t, env) ==
    LET toks == TLCEval(Lex(b, t, 0))
    IN  [mod |-> mod, b |-> b, t |-> t, env |-> env, toks |-> toks, T |-> TLCEval(Proper(toks)),
         i |-> 1, pos |-> 0, items |-> <<>>, sc |-> NoScope, defs |-> NoSymbols]

Complete(u) == u.pos = Len(u.b)

AddDefs(env, ds, defs) ==
    LET Add(acc, d) ==
            (d.sym :> d) @@ (IF d.k = "module" THEN acc @@ env.mods[d.mod].types ELSE acc)
    IN  FoldLeft(Add, defs, ds)

CompileNext(u) ==
    LET p == TLCEval(ParseItem(u.T, u.i, u.pos, Len(u.b)))
        x == FirstItem(p.c, 1)
        ctx == [mod |-> u.mod, mods |-> u.env.mods, find |-> u.env.find]
        r == TLCEval(ResolveItem(ctx, x, Start(-1), u.sc))
        defs1 == TLCEval(AddDefs(u.env, r.d, u.defs))
        numbers == NumberErrors(Descendants(p.c, 1, {"Number"}), 1)
        ds2 == TLCEval([i \in 1..Len(r.d) |-> KindDef(defs1, r.d[i])])
        kinds == KindErrors(defs1, r.r, Descendants(p.c, 1, {"NamedType"}), 1)
        defs2 == TLCEval(AddDefs(u.env, ds2, defs1))
        ty == TLCEval(InferItem(u.mod, defs2, x, ds2, r.r))
        covers == CoverErrors(defs2, r.r, ty.xs, Descendants(p.c, 1, {"Match"}), 1)
        syntax == [i \in 1..Len(p.er) |-> [s |-> p.er[i].s, e |-> p.er[i].e, sv |-> "error",
                                           m |-> <<Txt(p.er[i].m)>>]]
        item == [c |-> p.c, s |-> p.s, e |-> p.e, sc |-> u.sc, d |-> ty.d, r |-> r.r, xs |-> ty.xs,
                 er |-> TLCEval(syntax \o r.er \o numbers \o kinds \o ty.er \o covers)]
    IN  [u EXCEPT !.i = p.i, !.pos = p.e, !.items = Append(@, item),
                  !.sc = TLCEval(AddScope(ty.d, 1, @)),
                  !.defs = TLCEval(AddDefs(u.env, ty.d, defs2))]

\* only as much as is needed to know what is at a position
RECURSIVE CompileUpTo(_, _)
CompileUpTo(u, pos) == IF u.pos >= pos \/ Complete(u) THEN u ELSE CompileUpTo(CompileNext(u), pos)

CompileToEnd(u) == CompileUpTo(u, Len(u.b))

(* -- everything in a unit, in order ---------------------------------------- *)

Defs(items) == FoldLeft(LAMBDA acc, it: acc \o it.d, <<>>, items)
Refs(items) == FoldLeft(LAMBDA acc, it: acc \o it.r, <<>>, items)
ItemErrors(items) == FoldLeft(LAMBDA acc, it: acc \o it.er, <<>>, items)

(* -- complete modules ------------------------------------------------------ *)

Namespaces(d) ==
    CASE d.k = "value" -> {"Value"}
      [] d.k = "ctor" -> {"Value", "Pattern"}
      [] d.k = "type" -> {"Type"}
      [] OTHER -> {}

CollectExports(ds) ==
    FoldLeft(LAMBDA acc, d:
                IF d.vis = "export"
                THEN TLCEval([n \in {<<ns, d.x>> : ns \in Namespaces(d)} |-> d]) @@ acc ELSE acc,
             [x \in {} |-> 0], ds)

CollectTypes(env, ds) ==
    FoldLeft(LAMBDA acc, d:
                IF d.k = "module" THEN env.mods[d.mod].types @@ acc ELSE (d.sym :> d) @@ acc,
             NoSymbols, ds)

Finish(u0) ==
    LET u == CompileToEnd(u0)
        ds == Defs(u.items)
    IN  [unit |-> u, exports |-> CollectExports(ds), types |-> CollectTypes(u.env, ds)]

(* -- printing -------------------------------------------------------------- *)

\* syms: symbols with definitions in the unit
TypeName(u, syms, sym) == IF sym \in syms THEN u.defs[sym].x ELSE "???"

RECURSIVE ShowType(_, _, _, _), ShowArgs(_, _, _, _)
ShowArgs(u, syms, ts, i) ==
    IF i > Len(ts) THEN "" ELSE " " \o ShowType(u, syms, ts[i], 2) \o ShowArgs(u, syms, ts, i + 1)

\* prec: 0 - no parentheses, 1 - around functions, 2 - around applications too
ShowType(u, syms, t, prec) ==
    CASE t[1] = "int" -> "int"
      [] t[1] = "bool" -> "bool"
      [] t[1] = "string" -> "string"
      [] t[1] = "err" -> "?"
      [] t[1] = "infer" -> "_"
      [] t[1] = "named" ->
            LET x == TypeName(u, syms, t[2]) \o ShowArgs(u, syms, t[3], 1)
            IN  IF prec >= 2 /\ t[3] # <<>> THEN "(" \o x \o ")" ELSE x
      [] t[1] = "fn" ->
            LET x == ShowType(u, syms, t[2], 1) \o " -> " \o ShowType(u, syms, t[3], 0)
            IN  IF prec >= 1 THEN "(" \o x \o ")" ELSE x
      [] t[1] = "fold" ->
            "{" \o ShowType(u, syms, t[2], 0) \o " => " \o ShowType(u, syms, t[3], 0) \o "}"

Symbols(items) == {d.sym : d \in UNION {{it.d[i] : i \in 1..Len(it.d)} : it \in {items[j] : j \in 1..Len(items)}}}

RECURSIVE ShowMessage(_, _, _, _)
ShowMessage(u, syms, m, i) ==
    IF i > Len(m) THEN ""
    ELSE (CASE m[i][1] = "txt" -> m[i][2]
            [] m[i][1] = "num" -> ToString(m[i][2])
            [] m[i][1] = "ty" -> ShowType(u, syms, m[i][2], 0)
            [] m[i][1] = "sym" -> u.defs[m[i][2]].x)
         \o ShowMessage(u, syms, m, i + 1)

(* -- diagnostics ----------------------------------------------------------- *)

Unused(u) ==
    LET ds == Defs(u.items)
        rs == Refs(u.items)
        direct == {rs[i].sym : i \in 1..Len(rs)}
                  \cup {d.sym : d \in {x \in {ds[i] : i \in 1..Len(ds)} :
                                          x.vis = "export" \/ (x.k = "type" /\ x.isvar)}}
        types == {d.tsym : d \in {x \in {ds[i] : i \in 1..Len(ds)} : x.k = "ctor" /\ x.sym \in direct}}
        used == direct \cup types
        \* an imported name may stand for several symbols
        inuse == {<<d.s, d.e>> : d \in {x \in {ds[i] : i \in 1..Len(ds)} : x.sym \in used}}
        Add(acc, d) ==
            IF \/ d.k = "module" \/ <<d.s, d.e>> \in inuse \/ SubSeq(d.x, 1, 1) = "_"
               \/ \E i \in 1..Len(acc) : acc[i].s = d.s /\ acc[i].e = d.e
            THEN acc ELSE Append(acc, d)
        unused == FoldLeft(Add, <<>>, ds)
    IN  [i \in 1..Len(unused) |->
           [s |-> unused[i].s, e |-> unused[i].e, sv |-> "warning",
            m |-> <<Sym(unused[i].sym), Txt(" is never used")>>]]

\* of a complete unit
Diagnostics(u) ==
    LET syms == Symbols(u.items)
        all == ItemErrors(u.items) \o Unused(u)
    IN  [i \in 1..Len(all) |-> <<all[i].s, all[i].e, all[i].sv, ShowMessage(u, syms, all[i].m, 1)>>]

HasErrors(u) == \E i \in 1..Len(u.items) : u.items[i].er # <<>>

(* -- semantic tokens ------------------------------------------------------- *)

DefKind(d) ==
    CASE d.k = "value" -> "value"
      [] d.k = "ctor" -> "ctor"
      [] d.k = "type" -> IF d.isvar THEN "typevar" ELSE "type"
      [] d.k = "module" -> "type"

FormKind(k) ==
    CASE k \in Keywords -> "keyword"
      [] k \in {":", "=", "(", ")", "\\", "->", "|", ",", ".", ";"} -> "punct"
      [] k \in {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"} -> "operator"
      [] k = "NUM" -> "number"
      [] k = "STR" -> "string"
      [] k = "HOLE" -> "value"
      [] k = "CM" -> "comment"
      [] OTHER -> "none"

NameKinds(items, defs) ==
    LET Add(acc, x) == IF x.sym \in DOMAIN defs THEN (x.s :> DefKind(defs[x.sym])) @@ acc ELSE acc
    IN  FoldLeft(LAMBDA acc, it: FoldLeft(Add, FoldLeft(Add, acc, it.r), it.d), [x \in {} |-> ""], items)

\* of a complete unit
SemanticTokens(u) ==
    LET kinds == TLCEval(NameKinds(u.items, u.defs))
        toks == SelectSeq(u.toks, LAMBDA t: t.k = "NAME" \/ FormKind(t.k) # "none")
    IN  [i \in 1..Len(toks) |->
           <<toks[i].s, toks[i].e,
             IF toks[i].k = "NAME"
             THEN IF toks[i].s \in DOMAIN kinds THEN kinds[toks[i].s] ELSE "value"
             ELSE FormKind(toks[i].k)>>]

(* -- queries at a position ------------------------------------------------- *)

Touches(x, pos) == x.s <= pos /\ pos <= x.e
Touching(xs, pos) == SelectSeq(xs, LAMBDA x: Touches(x, pos))

None == <<>>

\* index of the item at a position, or 0
ItemAt(items, pos) ==
    LET J == {j \in 1..Len(items) : items[j].s <= pos /\ pos < items[j].e}
    IN  IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE

\* symbol at a position: a use or a definition, with its span
SymbolAt(items, pos) ==
    LET i == ItemAt(items, pos)
    IN  IF i = 0 THEN None
        ELSE LET rs == Touching(items[i].r, pos)
                 ds == SelectSeq(items[i].d, LAMBDA d: d.named /\ Touches(d, pos))
             IN  IF rs # <<>> THEN <<[sym |-> rs[1].sym, s |-> rs[1].s, e |-> rs[1].e, use |-> TRUE]>>
                 ELSE IF ds # <<>> THEN <<[sym |-> ds[1].sym, s |-> ds[1].s, e |-> ds[1].e, use |-> FALSE]>>
                 ELSE None

\* first definition of a symbol: item and definition
RECURSIVE FindDef(_, _, _)
FindDef(items, i, sym) ==
    IF i > Len(items) THEN None
    ELSE LET ds == SelectSeq(items[i].d, LAMBDA d: d.sym = sym)
         IN  IF ds = <<>> THEN FindDef(items, i + 1, sym) ELSE <<i, ds[1]>>

Definition(u, pos) ==
    LET x == SymbolAt(u.items, pos)
    IN  IF x = None THEN None
        ELSE IF ~x[1].use THEN <<x[1].s, x[1].e>>
        ELSE LET f == FindDef(u.items, 1, x[1].sym)
             IN  IF f = None THEN None ELSE <<f[2].s, f[2].e>>

SpansOf(rs, sym) ==
    LET xs == SelectSeq(rs, LAMBDA r: r.sym = sym)
    IN  [i \in 1..Len(xs) |-> <<xs[i].s, xs[i].e>>]

\* None or << references >>; the unit is complete
References(u, pos) ==
    LET x == SymbolAt(u.items, pos)
    IN  IF x = None THEN None
        ELSE LET f == FindDef(u.items, 1, x[1].sym)
             IN  IF f = None THEN None
                 ELSE IF f[2].vis = "local" THEN <<SpansOf(u.items[f[1]].r, x[1].sym)>>
                 ELSE <<SpansOf(Refs(u.items), x[1].sym)>>

RECURSIVE Kind(_)
Kind(n) == IF n = 0 THEN "*" ELSE "* -> " \o Kind(n - 1)

RECURSIVE ExprsAt(_, _, _)
ExprsAt(items, i, pos) ==
    IF i > Len(items) THEN <<>>
    ELSE (IF Touches(items[i], pos)
          THEN LET xs == Touching(Descendants(items[i].c, 1, ExprNodes), pos)
               IN  [j \in 1..Len(xs) |-> <<i, xs[j].s, xs[j].e>>]
          ELSE <<>>) \o ExprsAt(items, i + 1, pos)

ExprInfo(u, pos) ==
    LET xs == ExprsAt(u.items, 1, pos)
    IN  IF xs = <<>> THEN None
        ELSE LET x == Last(xs)
                 tys == SelectSeq(u.items[x[1]].xs, LAMBDA y: y[1] = x[2] /\ y[2] = x[3])
             IN  IF tys = <<>> THEN None
                 ELSE <<x[2], x[3], ShowType(u, Symbols(u.items), tys[1][3], 0)>>

\* None or <<start, end, text>>
Info(u, pos) ==
    LET x == SymbolAt(u.items, pos)
        f == IF x = None THEN None ELSE FindDef(u.items, 1, x[1].sym)
    IN  IF f = None \/ f[2].k = "module" THEN ExprInfo(u, pos)
        ELSE LET d == f[2]
             IN  <<x[1].s, x[1].e,
                   d.x \o ": " \o (IF d.k = "type" THEN Kind(d.pc)
                                   ELSE ShowType(u, Symbols(u.items), d.ty, 0))>>

(* -- completion ------------------------------------------------------------ *)

Placeholder == "ticc_autocomplete_hack"
PlaceholderBytes == <<116, 105, 99, 99, 95, 97, 117, 116, 111, 99, 111, 109, 112, 108, 101, 116, 101,
                      95, 104, 97, 99, 107>>

CharBoundary(b, pos) == pos = 0 \/ pos = Len(b) \/ (pos < Len(b) /\ (b[pos + 1] < 128 \/ b[pos + 1] >= 192))

\* None or << names >>: names that can be written at a position
Completions(u, pos) ==
    LET J == {j \in 1..Len(u.items) : Touches(u.items[j], pos)}
    IN  IF J = {} \/ ~CharBoundary(u.b, pos) THEN None
        ELSE LET it == u.items[CHOOSE j \in J : \A i \in J : j <= i]
                 b == SubSeq(u.b, it.s + 1, pos) \o PlaceholderBytes \o SubSeq(u.b, pos + 1, it.e)
                 t == SubSeq(u.t, it.s + 1, pos) \o Placeholder \o SubSeq(u.t, pos + 1, it.e)
                 T == TLCEval(Proper(Lex(b, t, it.s)))
                 p == ParseItem(T, 1, it.s, it.e + Len(Placeholder))
                 ctx == [mod |-> u.mod, mods |-> u.env.mods, find |-> u.env.find]
             IN  ResolveItem(ctx, FirstItem(p.c, 1), Start(pos), it.sc).got
=============================================================================
