------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Meaning of names.  Symbols identify what names stand for: a symbol is   *)
(* the module and the position of the name in the definition.  A scope     *)
(* maps names to symbols in each of four namespaces: values (v), types     *)
(* (t), constructors (c), modules (m).                                     *)
(*                                                                         *)
(* The resolver's state has definitions (d), uses (r) and errors (er)      *)
(* found so far, in order.  If q is not -1, then names usable at position  *)
(* q are collected in `got'.                                               *)
(***************************************************************************)
EXTENDS Syntax

TyInt == <<"int">>
TyBool == <<"bool">>
TyString == <<"string">>
TyError == <<"err">>
TyInfer == <<"infer">>
TyNamed(sym, args) == <<"named", sym, args>>
TyFn(a, b) == <<"fn", a, b>>
TyFolded(a, b) == <<"fold", a, b>>
TyVar(n) == <<"var", n>>

NoNames == [x \in {} |-> 0]
NoScope == [v |-> NoNames, t |-> NoNames, c |-> NoNames, m |-> NoNames]

Bind(f, x, y) == (x :> y) @@ f
BindV(sc, x, y) == [sc EXCEPT !.v = Bind(@, x, y)]
BindT(sc, x, y) == [sc EXCEPT !.t = Bind(@, x, y)]

NoSymbol == <<"none", 0>>
Lookup(f, x) == IF x \in DOMAIN f THEN f[x] ELSE NoSymbol

\* messages are sequences of parts: texts, numbers, types and symbols
Txt(x) == <<"txt", x>>
Num(x) == <<"num", x>>
Ty(x) == <<"ty", x>>
Sym(x) == <<"sym", x>>

Start(q) == [d |-> <<>>, r |-> <<>>, er |-> <<>>, q |-> q, got |-> <<>>]

AddDef(st, d) == [st EXCEPT !.d = Append(@, d)]
AddRef(st, sym, name) == [st EXCEPT !.r = Append(@, [sym |-> sym, s |-> name.s, e |-> name.e])]
AddErr(st, x, m) == [st EXCEPT !.er = Append(@, [s |-> x.s, e |-> x.e, sv |-> "error", m |-> m])]

Exports(m, ns) == {x[2] : x \in {y \in DOMAIN m.exports : y[1] = ns}}

\* A name is expected here: what can it be?
OnName(st, name, usage, sc, qualifier, m) ==
    IF st.q < name.s \/ name.e < st.q THEN st
    ELSE [st EXCEPT !.got = <<
        CASE qualifier = "unresolved" -> {}
          [] qualifier = "module" -> Exports(m, usage)
          [] OTHER -> DOMAIN sc.m \cup (CASE usage = "Type" -> DOMAIN sc.t
                                          [] usage = "Value" -> DOMAIN sc.v
                                          [] usage = "Pattern" -> DOMAIN sc.c
                                          [] OTHER -> {})>>]

ValueDef(m, name, ty, tvs, vis) ==
    [k |-> "value", sym |-> <<m, Pos(name)>>, s |-> name.s, e |-> name.e, x |-> Text(name),
     vis |-> vis, named |-> TRUE, ty |-> ty, tvs |-> tvs]

TypeDef(m, name, pc, isvar, ctors, vis) ==
    [k |-> "type", sym |-> <<m, Pos(name)>>, s |-> name.s, e |-> name.e, x |-> Text(name),
     vis |-> vis, named |-> TRUE, pc |-> pc, isvar |-> isvar, opaque |-> isvar, ctors |-> ctors]

IsLower(x) == \E c \in {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n",
                        "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"} :
                 SubSeq(x, 1, 1) = c

(***************************************************************************)
(* ctx has the module being resolved (ctx.mod) and completed modules       *)
(* (ctx.mods: by module; each has exports: <<namespace, name>> -> def).    *)
(***************************************************************************)

\* a member of another module: resolved symbol (or NoSymbol)
Member(ctx, st0, ns, name, sc, usage, what) ==
    LET st == OnName(st0, ns, "Module", sc, "none", Nil)
        mod == Text(ns)
    IN  IF mod \notin DOMAIN sc.m
        THEN [sym |-> NoSymbol,
              st |-> AddErr(OnName(st, name, usage, sc, "unresolved", Nil), ns,
                            <<Txt("undefined module")>>)]
        ELSE LET m == ctx.mods[sc.m[mod]]
                 st1 == OnName(st, name, usage, sc, "module", m)
                 x == Text(name)
             IN  IF <<usage, x>> \in DOMAIN m.exports
                 THEN LET sym == m.exports[<<usage, x>>].sym
                      IN  [sym |-> sym, st |-> AddRef(st1, sym, name)]
                 ELSE IF \E u \in {"Value", "Type", "Pattern"} : <<u, x>> \in DOMAIN m.exports
                 THEN [sym |-> NoSymbol, st |-> AddErr(st1, name, <<Txt(x), Txt(what)>>)]
                 ELSE [sym |-> NoSymbol,
                       st |-> AddErr(st1, ns, <<Txt("module does not export "), Txt(x)>>)]

(* -- types ---------------------------------------------------------------- *)

\* Results: [ty, st, sc, tvs].  With vars, unknown names in lower case
\* introduce type variables.
RECURSIVE ResolveType(_, _, _, _, _, _), ResolveArgs(_, _, _, _, _, _, _, _)

ResolveArgs(ctx, args, i, acc, st, sc, tvs, vars) ==
    IF i > Len(args) THEN [tys |-> acc, st |-> st, sc |-> sc, tvs |-> tvs]
    ELSE LET r == ResolveType(ctx, args[i], st, sc, tvs, vars)
         IN  ResolveArgs(ctx, args, i + 1, Append(acc, r.ty), r.st, r.sc, r.tvs, vars)

ResolveType(ctx, t, st, sc, tvs, vars) ==
    LET Same(ty) == [ty |-> ty, st |-> st, sc |-> sc, tvs |-> tvs]
    IN  CASE t.n = "nil" -> Same(TyError)
          [] t.n = "IntType" -> Same(TyInt)
          [] t.n = "BoolType" -> Same(TyBool)
          [] t.n = "StringType" -> Same(TyString)
          [] t.n = "ErrType" -> Same(TyError)
          [] t.n = "ParenType" -> ResolveType(ctx, TypeKid(t, 1), st, sc, tvs, vars)
          [] t.n = "FnType" ->
                LET a == ResolveType(ctx, TypeKid(t, 1), st, sc, tvs, vars)
                    b == ResolveType(ctx, TypeKid(t, 2), a.st, a.sc, a.tvs, vars)
                IN  [b EXCEPT !.ty = TyFn(a.ty, b.ty)]
          [] t.n = "NamedType" ->
                LET ns == Qualifier(t)
                    name == Qualified(t)
                    args == Kids(t, TypeNodes)
                    head ==
                        IF ~Present(name) THEN [sym |-> NoSymbol, st |-> st, sc |-> sc, tvs |-> tvs]
                        ELSE IF Present(ns)
                        THEN LET m == Member(ctx, st, ns, name, sc, "Type", " is not a type")
                             IN  [sym |-> m.sym, st |-> m.st, sc |-> sc, tvs |-> tvs]
                        ELSE LET x == Text(name)
                                 st1 == OnName(st, name, "Type", sc, "none", Nil)
                             IN  IF x \in DOMAIN sc.t
                                 THEN [sym |-> sc.t[x], st |-> AddRef(st1, sc.t[x], name),
                                       sc |-> sc, tvs |-> tvs]
                                 ELSE IF vars /\ IsLower(x) /\ args = <<>>
                                 THEN LET d == TypeDef(ctx.mod, name, 0, TRUE, <<>>, "local")
                                      IN  [sym |-> d.sym, st |-> AddDef(st1, d),
                                           sc |-> BindT(sc, x, d.sym), tvs |-> Append(tvs, d.sym)]
                                 ELSE [sym |-> NoSymbol,
                                       st |-> AddErr(st1, name, <<Txt("undefined type")>>),
                                       sc |-> sc, tvs |-> tvs]
                    r == ResolveArgs(ctx, args, 1, <<>>, head.st, head.sc, head.tvs, vars)
                IN  [ty |-> IF head.sym = NoSymbol THEN TyError ELSE TyNamed(head.sym, r.tys),
                     st |-> r.st, sc |-> r.sc, tvs |-> r.tvs]

(* -- expressions ---------------------------------------------------------- *)

RECURSIVE ResolveExpr(_, _, _, _), ResolveCases(_, _, _, _, _), BindVars(_, _, _, _, _)

\* defines names as local values
BindVars(ctx, names, i, st, sc) ==
    IF i > Len(names) THEN [st |-> st, sc |-> sc]
    ELSE LET d == ValueDef(ctx.mod, names[i], TyInfer, <<>>, "local")
         IN  BindVars(ctx, names, i + 1, AddDef(st, d), BindV(sc, d.x, d.sym))

ResolveCases(ctx, cs, i, st, sc) ==
    IF i > Len(cs) THEN st
    ELSE LET x == cs[i]
             ns == Qualifier(x)
             name == Qualified(x)
             st1 ==
                IF ~Present(name) THEN st
                ELSE IF Present(ns)
                THEN Member(ctx, st, ns, name, sc, "Pattern", " is not a constructor").st
                ELSE LET st0 == OnName(st, name, "Pattern", sc, "none", Nil)
                     IN  IF Text(name) \in DOMAIN sc.c
                         THEN AddRef(st0, sc.c[Text(name)], name)
                         ELSE AddErr(st0, name, <<Txt("undefined constructor")>>)
             b == BindVars(ctx, CaseVars(x), 1, st1, sc)
         IN  ResolveCases(ctx, cs, i + 1, ResolveExpr(ctx, ExprKid(x, 1), b.st, b.sc), sc)

ResolveExpr(ctx, x, st, sc) ==
    CASE x.n \in {"nil", "Bool", "Number", "String", "Hole"} -> st
      [] x.n = "NameExpr" ->
            LET name == NameKid(x, 1)
                st1 == OnName(st, name, "Value", sc, "none", Nil)
            IN  IF Text(name) \in DOMAIN sc.v
                THEN AddRef(st1, sc.v[Text(name)], name)
                ELSE AddErr(st1, name, <<Txt("undefined variable")>>)
      [] x.n = "NsName" ->
            IF Present(NameKid(x, 1)) /\ Present(NameKid(x, 2))
            THEN Member(ctx, st, NameKid(x, 1), NameKid(x, 2), sc, "Value", " is not a value").st
            ELSE st
      [] x.n \in {"Apply", "Binary"} ->
            ResolveExpr(ctx, ExprKid(x, 2), ResolveExpr(ctx, ExprKid(x, 1), st, sc), sc)
      [] x.n = "If" ->
            ResolveExpr(ctx, ExprKid(x, 3),
                ResolveExpr(ctx, ExprKid(x, 2), ResolveExpr(ctx, ExprKid(x, 1), st, sc), sc), sc)
      [] x.n = "Paren" -> ResolveExpr(ctx, ExprKid(x, 1), st, sc)
      [] x.n = "Let" ->
            LET ty == TypeKid(x, 1)
                name == NameKid(x, 1)
                a == IF Present(ty) THEN ResolveType(ctx, ty, st, sc, <<>>, TRUE)
                     ELSE [ty |-> TyInfer, st |-> st, sc |-> sc, tvs |-> <<>>]
                st1 == ResolveExpr(ctx, ExprKid(x, 1), a.st, a.sc)
            IN  IF Present(name)
                THEN LET d == ValueDef(ctx.mod, name, a.ty, a.tvs, "local")
                     IN  ResolveExpr(ctx, ExprKid(x, 2), AddDef(st1, d), BindV(sc, d.x, d.sym))
                ELSE ResolveExpr(ctx, ExprKid(x, 2), st1, sc)
      [] x.n = "Lambda" ->
            LET name == NameKid(x, 1)
                b == BindVars(ctx, IF Present(name) THEN <<name>> ELSE <<>>, 1, st, sc)
            IN  ResolveExpr(ctx, ExprKid(x, 1), b.st, b.sc)
      [] x.n = "Match" ->
            ResolveCases(ctx, Kids(x, {"MatchCase"}), 1, ResolveExpr(ctx, ExprKid(x, 1), st, sc), sc)

(* -- items ---------------------------------------------------------------- *)

ResolveValueItem(ctx, x, st, sc) ==
    LET ty == TypeKid(x, 1)
        name == NameKid(x, 1)
        a == IF Present(ty) THEN ResolveType(ctx, ty, st, sc, <<>>, TRUE)
             ELSE [ty |-> TyInfer, st |-> st, sc |-> sc, tvs |-> <<>>]
        st1 == IF Present(name)
               THEN AddDef(a.st, ValueDef(ctx.mod, name, a.ty, a.tvs,
                                          IF HasToken(x, "export") THEN "export" ELSE "module"))
               ELSE a.st
    IN  ResolveExpr(ctx, ExprKid(x, 1), st1, a.sc)

RECURSIVE ResolveParams(_, _, _, _, _, _)
ResolveParams(ctx, names, i, st, sc, acc) ==
    IF i > Len(names) THEN [st |-> st, sc |-> sc, syms |-> acc]
    ELSE LET d == TypeDef(ctx.mod, names[i], 0, TRUE, <<>>, "local")
         IN  ResolveParams(ctx, names, i + 1, AddDef(st, d), BindT(sc, d.x, d.sym), Append(acc, d.sym))

\* type of a constructor as a function
RECURSIVE CtorType(_, _, _)
CtorType(fields, i, whole) ==
    IF i > Len(fields) THEN whole
    ELSE TyFn(IF fields[i] = <<"rec">> THEN whole ELSE fields[i], CtorType(fields, i + 1, whole))

RECURSIVE ResolveFields(_, _, _, _, _, _)
ResolveFields(ctx, fs, i, st, sc, acc) ==
    IF i > Len(fs) THEN [st |-> st, fields |-> acc]
    ELSE IF fs[i].n = "RecField" THEN ResolveFields(ctx, fs, i + 1, st, sc, Append(acc, <<"rec">>))
    ELSE LET r == ResolveType(ctx, TypeKid(fs[i], 1), st, sc, <<>>, FALSE)
         IN  ResolveFields(ctx, fs, i + 1, r.st, sc, Append(acc, r.ty))

RECURSIVE ResolveTypeCases(_, _, _, _, _, _, _, _, _, _)
ResolveTypeCases(ctx, cs, i, st, sc, tsym, params, names, ctors, vis) ==
    IF i > Len(cs) THEN [st |-> st, ctors |-> ctors]
    ELSE LET r == ResolveFields(ctx, Fields(cs[i]), 1, st, sc, <<>>)
             name == NameKid(cs[i], 1)
             Next(st1, ns, cts) ==
                ResolveTypeCases(ctx, cs, i + 1, st1, sc, tsym, params, ns, cts, vis)
         IN  IF ~Present(name) THEN Next(r.st, names, ctors)
             ELSE IF Text(name) \in names
             THEN Next(AddErr(r.st, name, <<Txt("duplicate constructor "), Txt(Text(name))>>),
                       names, ctors)
             ELSE LET whole == TyNamed(tsym, TLCEval([j \in 1..Len(params) |-> TyNamed(params[j], <<>>)]))
                      d == [k |-> "ctor", sym |-> <<ctx.mod, Pos(name)>>, s |-> name.s, e |-> name.e,
                            x |-> Text(name), vis |-> vis, named |-> TRUE, tsym |-> tsym,
                            tvs |-> params, fields |-> r.fields, ty |-> CtorType(r.fields, 1, whole)]
                  IN  Next(AddDef(r.st, d), names \cup {d.x}, Append(ctors, d.sym))

ResolveTypeItem(ctx, x, st, sc) ==
    LET name == NameKid(x, 1)
        tsym == IF Present(name) THEN <<ctx.mod, Pos(name)>> ELSE <<ctx.mod, -1 - x.s>>
        p == ResolveParams(ctx, Params(x), 1, st, sc, <<>>)
        r == ResolveTypeCases(ctx, Kids(x, {"TypeCase"}), 1, p.st, p.sc, tsym, p.syms, {}, <<>>,
                              IF CasesExported(x) THEN "export" ELSE "module")
    IN  IF Present(name)
        THEN AddDef(r.st, TypeDef(ctx.mod, name, Len(p.syms), FALSE, r.ctors,
                                  IF TypeExported(x) THEN "export" ELSE "module"))
        ELSE r.st

\* namespaces in the order in which an exposed name is looked up in them
ExposedOrder == <<"Value", "Type", "Pattern">>

RECURSIVE ResolveExposed(_, _, _, _, _)
ResolveExposed(ctx, names, i, st, m) ==
    IF i > Len(names) THEN st
    ELSE LET x == Text(names[i])
             found == SelectSeq(ExposedOrder, LAMBDA ns: <<ns, x>> \in DOMAIN m.exports)
             ds == TLCEval([j \in 1..Len(found) |->
                      [m.exports[<<found[j], x>>] EXCEPT !.s = names[i].s, !.e = names[i].e,
                                                         !.vis = "module"]])
         IN  ResolveExposed(ctx, names, i + 1,
                IF found = <<>>
                THEN AddErr(st, names[i], <<Txt("module does not export "), Txt(x)>>)
                ELSE [st EXCEPT !.d = @ \o ds], m)

\* ctx.find: path -> module or <<"error", message>>
ResolveImport(ctx, x, st, sc) ==
    LET path == Token(x, "STR")
        name == NameKid(x, 1)
        list == Kid(x, {"ExposedList"}, 1)
    IN  IF ~Present(path) THEN st
        ELSE LET text == Unquote(path.x)
                 found == IF text \in DOMAIN ctx.find THEN ctx.find[text]
                          ELSE <<"error", "cannot find module">>
             IN  IF found[1] = "error" THEN AddErr(st, path, <<Txt(found[2])>>)
                 ELSE LET m == found[2]
                          at == IF Present(name) THEN name ELSE x
                          d == [k |-> "module", sym |-> <<ctx.mod, IF Present(name) THEN Pos(name)
                                                                   ELSE -1 - x.s>>,
                                s |-> at.s, e |-> at.e, x |-> IF Present(name) THEN Text(name) ELSE "",
                                vis |-> "module", named |-> Present(name), mod |-> m]
                      IN  ResolveExposed(ctx, IF Present(list) THEN Kids(list, {"Name"}) ELSE <<>>, 1,
                                         AddDef(st, d), ctx.mods[m])

ResolveItem(ctx, x, st, sc) ==
    CASE x.n = "nil" -> st
      [] x.n = "ValueItem" -> ResolveValueItem(ctx, x, st, sc)
      [] x.n = "TypeItem" -> ResolveTypeItem(ctx, x, st, sc)
      [] x.n = "ImportItem" -> ResolveImport(ctx, x, st, sc)

\* names that an item brings into scope of the following items
RECURSIVE AddScope(_, _, _)
AddScope(ds, i, sc) ==
    IF i > Len(ds) THEN sc
    ELSE LET d == ds[i]
         IN  AddScope(ds, i + 1,
                IF d.vis = "local" \/ ~d.named THEN sc
                ELSE CASE d.k = "value" -> BindV(sc, d.x, d.sym)
                       [] d.k = "ctor" -> [sc EXCEPT !.v = Bind(@, d.x, d.sym), !.c = Bind(@, d.x, d.sym)]
                       [] d.k = "type" -> BindT(sc, d.x, d.sym)
                       [] d.k = "module" -> [sc EXCEPT !.m = Bind(@, d.x, d.mod)])
=============================================================================
