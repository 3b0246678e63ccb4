-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The intermediate language: what its programs are made of, when they are *)
(* well typed, and what they mean.                                         *)
(*                                                                         *)
(* Types:  <<"int">>  <<"bool">>  <<"string">>  <<"fn", params, out>>      *)
(*   <<"var", x>>  type variable                                           *)
(*   <<"bound", i>>  variable of the i-th enclosing <<"all", type>>        *)
(*   <<"data", sym, folded, args>>  data type of the source; a folded one  *)
(*       has results of a fold (its last argument) in recursive fields     *)
(*                                                                         *)
(* Expressions (x: names; t: types as written):                            *)
(*   <<"int", digits>>  <<"bool", b>>  <<"str", bytes>>  <<"name", x>>     *)
(*   <<"call", f, args>>  <<"op", o, a, b>>  <<"intr", name, args>>        *)
(*   <<"if", c, a, b>>  <<"lam", <<<<x, t>>...>>, e>>                      *)
(*   <<"match", e, <<<<ctor, names, e>>...>>>>  <<"new", ctor, ts, args>>  *)
(*   <<"let", x, a, b>>  <<"letrec", x, t, a, b>>                          *)
(*   <<"pi", v, e>>  <<"inst", e, t>>  <<"trap", message, t>>              *)
(* Types as written have <<"var", v>>, <<"all", v, t>> and                 *)
(* <<"named", name, args>>.  Names, of values, types and constructors, are *)
(* <<text, number>> where text is the name in the source.                  *)
(***************************************************************************)
EXTENDS Eval

Bad(why) == <<"bad", why>>
IsBad(t) == t[1] = "bad"

(***************************************************************************)
(* Expressions are given as sequences of nodes, each after the expressions *)
(* in it, which it has by their positions.  The last one is the whole.     *)
(***************************************************************************)
Tree(done, e) ==
    LET All(is) == TLCEval([j \in 1..Len(is) |-> done[is[j]]])
    IN  CASE e[1] \in {"int", "bool", "str", "name", "trap"} -> e
          [] e[1] = "call" -> <<"call", done[e[2]], All(e[3])>>
          [] e[1] = "intr" -> <<"intr", e[2], All(e[3])>>
          [] e[1] = "op" -> <<"op", e[2], done[e[3]], done[e[4]]>>
          [] e[1] = "if" -> <<"if", done[e[2]], done[e[3]], done[e[4]]>>
          [] e[1] = "lam" -> <<"lam", e[2], done[e[3]]>>
          [] e[1] = "match" ->
                <<"match", done[e[2]], TLCEval([j \in 1..Len(e[3]) |-> <<e[3][j][1], e[3][j][2], done[e[3][j][3]]>>])>>
          [] e[1] = "new" -> <<"new", e[2], e[3], All(e[4])>>
          [] e[1] = "let" -> <<"let", e[2], done[e[3]], done[e[4]]>>
          [] e[1] = "letrec" -> <<"letrec", e[2], e[3], done[e[4]], done[e[5]]>>
          [] e[1] = "pi" -> <<"pi", e[2], done[e[3]]>>
          [] e[1] = "inst" -> <<"inst", done[e[2]], e[3]>>

Expression(nodes) == LET all == FoldLeft(LAMBDA done, e: Append(done, TLCEval(Tree(done, e))), <<>>, nodes) IN all[Len(all)]

(* -- data types of the source ---------------------------------------------- *)

\* defs: all definitions of all modules
DataDefs(defs) == {s \in DOMAIN defs : defs[s].k = "type" /\ ~defs[s].isvar}
CtorDefs(defs) == {s \in DOMAIN defs : defs[s].k = "ctor"}

\* can types and constructors be told by names?
Unambiguous(defs) ==
    /\ \A a, b \in DataDefs(defs) : defs[a].x = defs[b].x => a = b
    /\ \A a, b \in CtorDefs(defs) : defs[a].x = defs[b].x => a = b

Universe(defs) ==
    LET ts == DataDefs(defs)
        cs == CtorDefs(defs)
    IN  [types |-> TLCEval([x \in {defs[s].x : s \in ts} |-> LET s == CHOOSE s \in ts : defs[s].x = x
                                                             IN  [sym |-> s, n |-> defs[s].pc]]),
         ctors |-> TLCEval([x \in {defs[s].x : s \in cs} |-> defs[CHOOSE s \in cs : defs[s].x = x]])]

\* type in the source as a type of the intermediate language; vs: types of variables
RECURSIVE FromSource(_, _)
FromSource(t, vs) ==
    CASE t[1] = "named" ->
            IF t[2] \in DOMAIN vs THEN vs[t[2]]
            ELSE <<"data", t[2], FALSE, TLCEval([i \in 1..Len(t[3]) |-> FromSource(t[3][i], vs)])>>
      [] t[1] = "fn" -> <<"fn", <<FromSource(t[2], vs)>>, FromSource(t[3], vs)>>
      [] OTHER -> t

FieldType(ctor, i, folded, args) ==
    LET n == Len(ctor.tvs)
        vs == [s \in {ctor.tvs[j] : j \in 1..n} |-> args[CHOOSE j \in 1..n : ctor.tvs[j] = s]]
    IN  IF ctor.fields[i] # <<"rec">> THEN FromSource(ctor.fields[i], vs)
        ELSE IF folded THEN args[n + 1]
        ELSE <<"data", ctor.tsym, FALSE, args>>

(* -- types ------------------------------------------------------------------ *)

\* type as written; bs: enclosing bound variables, innermost first
RECURSIVE Written(_, _, _, _)
Written(U, tvs, t, bs) ==
    LET All(ts) == TLCEval([i \in 1..Len(ts) |-> Written(U, tvs, ts[i], bs)])
        FirstBad(ts) == SelectSeq(ts, IsBad)
    IN  CASE t[1] = "var" ->
                IF \E i \in 1..Len(bs) : bs[i] = t[2]
                THEN <<"bound", CHOOSE i \in 1..Len(bs) : bs[i] = t[2] /\ \A j \in 1..i - 1 : bs[j] # t[2]>>
                ELSE IF t[2] \in tvs THEN t ELSE Bad(<<"type variable is not in scope", t[2]>>)
          [] t[1] = "all" ->
                LET b == Written(U, tvs, t[3], <<t[2]>> \o bs) IN IF IsBad(b) THEN b ELSE <<"all", b>>
          [] t[1] = "fn" ->
                LET ps == All(t[2])
                    out == Written(U, tvs, t[3], bs)
                IN  IF FirstBad(ps) # <<>> THEN FirstBad(ps)[1]
                    ELSE IF IsBad(out) THEN out ELSE <<"fn", ps, out>>
          [] t[1] = "named" ->
                LET args == All(t[3])
                    x == t[2][1]
                IN  IF FirstBad(args) # <<>> THEN FirstBad(args)[1]
                    ELSE IF x \notin DOMAIN U.types THEN Bad(<<"unknown type", x>>)
                    ELSE LET d == U.types[x]
                         IN  IF Len(args) = d.n THEN <<"data", d.sym, FALSE, args>>
                             ELSE IF Len(args) = d.n + 1 THEN <<"data", d.sym, TRUE, args>>
                             ELSE Bad(<<"wrong number of type arguments", x>>)
          [] OTHER -> t

\* type of the body of <<"all", t>> for a variable that is s (without bound variables)
RECURSIVE Instantiated(_, _, _)
Instantiated(t, i, s) ==
    CASE t[1] = "bound" -> IF t[2] = i THEN s ELSE t
      [] t[1] = "all" -> <<"all", Instantiated(t[2], i + 1, s)>>
      [] t[1] = "fn" -> <<"fn", TLCEval([j \in 1..Len(t[2]) |-> Instantiated(t[2][j], i, s)]), Instantiated(t[3], i, s)>>
      [] t[1] = "data" -> <<"data", t[2], t[3], TLCEval([j \in 1..Len(t[4]) |-> Instantiated(t[4][j], i, s)])>>
      [] OTHER -> t

RECURSIVE Generalised(_, _, _)
Generalised(t, i, v) ==
    CASE t[1] = "var" -> IF t[2] = v THEN <<"bound", i>> ELSE t
      [] t[1] = "all" -> <<"all", Generalised(t[2], i + 1, v)>>
      [] t[1] = "fn" -> <<"fn", TLCEval([j \in 1..Len(t[2]) |-> Generalised(t[2][j], i, v)]), Generalised(t[3], i, v)>>
      [] t[1] = "data" -> <<"data", t[2], t[3], TLCEval([j \in 1..Len(t[4]) |-> Generalised(t[4][j], i, v)])>>
      [] OTHER -> t

(* -- expressions ------------------------------------------------------------ *)

Intrinsics == [stringLen |-> <<"stringLength", <<<<"string">>>>, <<"int">>>>,
               stringConcat |-> <<"stringConcat", <<<<"string">>, <<"string">>>>, <<"string">>>>,
               stringCharAt |-> <<"stringCharAt", <<<<"int">>, <<"string">>>>, <<"int">>>>,
               stringSubstring |-> <<"stringSubstring", <<<<"int">>, <<"int">>, <<"string">>>>, <<"string">>>>,
               stringFromChar |-> <<"stringFromChar", <<<<"int">>>>, <<"string">>>>,
               intToString |-> <<"intToString", <<<<"int">>>>, <<"string">>>>]

(***************************************************************************)
(* Type of an expression.  U: data types; G: types of global names; L:     *)
(* types of local names; tvs: type variables in scope.                     *)
(***************************************************************************)
RECURSIVE TypeOf(_, _, _, _, _), Fits(_, _, _, _, _, _), CaseTypes(_, _, _, _, _, _, _)

\* do all expressions have given types?  <<"ok">> or what is wrong
Fits(U, G, L, tvs, es, ts) ==
    IF Len(es) # Len(ts) THEN Bad(<<"wrong number of values", Len(es), Len(ts)>>)
    ELSE IF es = <<>> THEN <<"ok">>
    ELSE LET t == TLCEval(TypeOf(U, G, L, tvs, es[1]))
         IN  IF IsBad(t) THEN t
             ELSE IF t # ts[1] THEN Bad(<<"wrong type", es[1], t, ts[1]>>)
             ELSE Fits(U, G, L, tvs, Tail(es), Tail(ts))

OrBad(r, t) == IF IsBad(r) THEN r ELSE t

CaseTypes(U, G, L, tvs, cs, d, ty) ==
    IF cs = <<>> THEN IF ty = <<>> THEN Bad(<<"match without cases">>) ELSE ty
    ELSE LET c == cs[1]
             x == c[1][1]
         IN  IF x \notin DOMAIN U.ctors THEN Bad(<<"unknown constructor", x>>)
             ELSE IF U.ctors[x].tsym # d[2] THEN Bad(<<"constructor of another type", x>>)
             ELSE IF Len(c[2]) # Len(U.ctors[x].fields) THEN Bad(<<"wrong number of fields", x>>)
             ELSE LET L1 == TLCEval([y \in {c[2][i] : i \in 1..Len(c[2])} |->
                                FieldType(U.ctors[x], CHOOSE i \in 1..Len(c[2]) : c[2][i] = y, d[3], d[4])] @@ L)
                      t == TLCEval(TypeOf(U, G, L1, tvs, c[3]))
                  IN  IF IsBad(t) THEN t
                      ELSE IF ty # <<>> /\ ty # t THEN Bad(<<"cases have different types", ty, t>>)
                      ELSE CaseTypes(U, G, L, tvs, Tail(cs), d, t)

TypeOf(U, G, L, tvs, e) ==
    CASE e[1] = "int" -> <<"int">>
      [] e[1] = "bool" -> <<"bool">>
      [] e[1] = "str" -> <<"string">>
      [] e[1] = "name" ->
            IF e[2] \in DOMAIN L THEN L[e[2]] ELSE IF e[2] \in DOMAIN G THEN G[e[2]] ELSE Bad(<<"name is not in scope", e[2]>>)
      [] e[1] = "call" ->
            LET f == TLCEval(TypeOf(U, G, L, tvs, e[2]))
            IN  IF IsBad(f) THEN f
                ELSE IF f[1] # "fn" THEN Bad(<<"call of something else than a function", e[2], f>>)
                ELSE OrBad(Fits(U, G, L, tvs, e[3], f[2]), f[3])
      [] e[1] = "intr" ->
            IF e[2] \notin DOMAIN Intrinsics THEN Bad(<<"unknown intrinsic", e[2]>>)
            ELSE OrBad(Fits(U, G, L, tvs, e[3], Intrinsics[e[2]][2]), Intrinsics[e[2]][3])
      [] e[1] = "op" ->
            OrBad(Fits(U, G, L, tvs, <<e[3], e[4]>>, <<<<"int">>, <<"int">>>>),
                 IF e[2] \in {"+", "-", "*", "/", "%"} THEN <<"int">> ELSE <<"bool">>)
      [] e[1] = "if" ->
            LET t == TLCEval(TypeOf(U, G, L, tvs, e[3]))
            IN  IF IsBad(t) THEN t ELSE OrBad(Fits(U, G, L, tvs, <<e[2], e[4]>>, <<<<"bool">>, t>>), t)
      [] e[1] = "lam" ->
            LET ts == TLCEval([i \in 1..Len(e[2]) |-> Written(U, tvs, e[2][i][2], <<>>)])
                bad == SelectSeq(ts, IsBad)
                xs == {e[2][i][1] : i \in 1..Len(e[2])}
                L1 == TLCEval([x \in xs |-> ts[CHOOSE i \in 1..Len(e[2]) : e[2][i][1] = x]] @@ L)
                b == TLCEval(TypeOf(U, G, L1, tvs, e[3]))
            IN  IF bad # <<>> THEN bad[1] ELSE IF IsBad(b) THEN b ELSE <<"fn", ts, b>>
      [] e[1] = "match" ->
            LET d == TLCEval(TypeOf(U, G, L, tvs, e[2]))
            IN  IF IsBad(d) THEN d
                ELSE IF d[1] # "data" THEN Bad(<<"match on something else than data", e[2], d>>)
                ELSE IF \/ Len(e[3]) # Cardinality({e[3][i][1] : i \in 1..Len(e[3])})
                        \/ {e[3][i][1][1] : i \in 1..Len(e[3])} # {x \in DOMAIN U.ctors : U.ctors[x].tsym = d[2]}
                THEN Bad(<<"cases are not the constructors of the type", d>>)
                ELSE CaseTypes(U, G, L, tvs, e[3], d, <<>>)
      [] e[1] = "new" ->
            LET ts == TLCEval([i \in 1..Len(e[3]) |-> Written(U, tvs, e[3][i], <<>>)])
                bad == SelectSeq(ts, IsBad)
                x == e[2][1]
            IN  IF bad # <<>> THEN bad[1]
                ELSE IF x \notin DOMAIN U.ctors THEN Bad(<<"unknown constructor", x>>)
                ELSE LET c == U.ctors[x]
                         folded == Len(ts) # Len(c.tvs)
                     IN  IF Len(ts) \notin {Len(c.tvs), Len(c.tvs) + 1} THEN Bad(<<"wrong number of type arguments", x>>)
                         ELSE OrBad(Fits(U, G, L, tvs, e[4], [i \in 1..Len(c.fields) |-> FieldType(c, i, folded, ts)]),
                                   <<"data", c.tsym, folded, ts>>)
      [] e[1] = "let" ->
            LET t == TLCEval(TypeOf(U, G, L, tvs, e[3]))
            IN  IF IsBad(t) THEN t ELSE TypeOf(U, G, TLCEval((e[2] :> t) @@ L), tvs, e[4])
      [] e[1] = "letrec" ->
            LET t == TLCEval(Written(U, tvs, e[3], <<>>))
                L1 == TLCEval((e[2] :> t) @@ L)
            IN  IF IsBad(t) THEN t ELSE OrBad(Fits(U, G, L1, tvs, <<e[4]>>, <<t>>), TypeOf(U, G, L1, tvs, e[5]))
      [] e[1] = "pi" ->
            IF e[2] \in tvs THEN Bad(<<"type variable is bound again", e[2]>>)
            ELSE LET t == TLCEval(TypeOf(U, G, L, tvs \cup {e[2]}, e[3]))
                 IN  IF IsBad(t) THEN t ELSE <<"all", Generalised(t, 1, e[2])>>
      [] e[1] = "inst" ->
            LET f == TLCEval(TypeOf(U, G, L, tvs, e[2]))
                t == TLCEval(Written(U, tvs, e[3], <<>>))
            IN  IF IsBad(f) THEN f ELSE IF IsBad(t) THEN t
                ELSE IF f[1] # "all" THEN Bad(<<"type argument of something that has no parameter", e[2], f>>)
                ELSE Instantiated(f[2], 1, t)
      [] e[1] = "trap" -> Written(U, tvs, e[3], <<>>)

(* -- names ------------------------------------------------------------------ *)

\* names that an expression binds, in order
RECURSIVE Binders(_)
BindersOf(es) == FoldLeft(LAMBDA acc, y: acc \o Binders(y), <<>>, es)
Binders(e) ==
    CASE e[1] \in {"int", "bool", "str", "name", "trap"} -> <<>>
      [] e[1] = "call" -> Binders(e[2]) \o BindersOf(e[3])
      [] e[1] = "intr" -> BindersOf(e[3])
      [] e[1] = "op" -> Binders(e[3]) \o Binders(e[4])
      [] e[1] = "if" -> Binders(e[2]) \o Binders(e[3]) \o Binders(e[4])
      [] e[1] = "lam" -> [i \in 1..Len(e[2]) |-> e[2][i][1]] \o Binders(e[3])
      [] e[1] = "match" -> Binders(e[2]) \o FoldLeft(LAMBDA acc, c: acc \o c[2] \o Binders(c[3]), <<>>, e[3])
      [] e[1] = "new" -> BindersOf(e[4])
      [] e[1] = "let" -> <<e[2]>> \o Binders(e[3]) \o Binders(e[4])
      [] e[1] = "letrec" -> <<e[2]>> \o Binders(e[4]) \o Binders(e[5])
      [] e[1] = "pi" -> Binders(e[3])
      [] e[1] = "inst" -> Binders(e[2])

(* -- meaning ---------------------------------------------------------------- *)

(***************************************************************************)
(* Types are erased and expressions become code of the machine.  A         *)
(* function of several parameters is a function that gives functions:      *)
(* nothing happens when only some of the arguments are given.              *)
(***************************************************************************)
Nothing == <<"val", <<"b", TRUE>>>>

RECURSIVE Code(_, _, _, _), Functions(_, _, _, _, _)

Functions(U, e, i, vs, n) ==
    IF e[2] = <<>> THEN <<"fun", Code(U, e[3], vs, n + 1)>>
    ELSE IF i > Len(e[2]) THEN Code(U, e[3], vs, n)
    ELSE <<"fun", Functions(U, e, i + 1, TLCEval((e[2][i][1] :> n + 1) @@ vs), n + 1)>>

Applied(U, f, args, vs, n) ==
    IF args = <<>> THEN <<"app", f, Nothing>>
    ELSE FoldLeft(LAMBDA acc, a: <<"app", acc, Code(U, a, vs, n)>>, f, args)

\* type abstractions around a function
RECURSIVE Inside(_)
Inside(e) == IF e[1] = "pi" THEN Inside(e[3]) ELSE e

\* names that are not local are global: vs has them as negative numbers
Code(U, e, vs, n) ==
    CASE e[1] = "int" -> <<"val", <<"i", WordOf(e[2])>>>>
      [] e[1] = "bool" -> <<"val", <<"b", e[2]>>>>
      [] e[1] = "str" -> <<"val", <<"s", e[2]>>>>
      [] e[1] = "name" -> IF vs[e[2]] > 0 THEN <<"var", vs[e[2]]>> ELSE <<"glob", -vs[e[2]]>>
      [] e[1] = "call" -> Applied(U, Code(U, e[2], vs, n), e[3], vs, n)
      [] e[1] = "intr" -> Applied(U, <<"val", <<"p", Intrinsics[e[2]][1], <<>>>>>>, e[3], vs, n)
      [] e[1] = "op" -> <<"op", e[2], Code(U, e[3], vs, n), Code(U, e[4], vs, n)>>
      [] e[1] = "if" -> <<"if", Code(U, e[2], vs, n), Code(U, e[3], vs, n), Code(U, e[4], vs, n)>>
      [] e[1] = "lam" -> Functions(U, e, 1, vs, n)
      [] e[1] = "match" ->
            <<"match", Code(U, e[2], vs, n),
              TLCEval([i \in 1..Len(e[3]) |->
                LET c == e[3][i]
                    vs1 == TLCEval(FoldLeftDomain(LAMBDA acc, j: (c[2][j] :> n + j) @@ acc, vs, c[2]))
                IN  [ctor |-> c[1], n |-> Len(c[2]), body |-> Code(U, c[3], vs1, n + Len(c[2]))]])>>
      [] e[1] = "new" ->
            LET c == <<"val", <<"c", [sym |-> e[2], x |-> e[2][1], rec |-> [i \in 1..Len(e[4]) |-> FALSE]], <<>>>>>>
            IN  IF e[4] = <<>> THEN c ELSE Applied(U, c, e[4], vs, n)
      [] e[1] = "let" ->
            <<"let", Code(U, e[3], vs, n), Code(U, e[4], TLCEval((e[2] :> n + 1) @@ vs), n + 1)>>
      [] e[1] = "letrec" ->
            LET vs1 == TLCEval((e[2] :> n + 1) @@ vs)
                f == Inside(e[4])
            IN  IF f[1] # "lam" THEN <<"hole", "recursive value">>
                ELSE <<"let", <<"rec", Functions(U, f, 1, vs1, n + 1)[2]>>, Code(U, e[5], vs1, n + 1)>>
      [] e[1] = "pi" -> Code(U, e[3], vs, n)
      [] e[1] = "inst" -> Code(U, e[2], vs, n)
      [] e[1] = "trap" -> <<"hole", e[2]>>

(* -- programs --------------------------------------------------------------- *)

(***************************************************************************)
(* Definitions: [x, exp (name it is exported by, or ""), ty, e].           *)
(* Progress of reading a program: types G of names so far, and what is     *)
(* wrong.                                                                  *)
(***************************************************************************)
CheckDef(U, acc, d) ==
    IF acc.bad # <<>> THEN acc
    ELSE LET t == TLCEval(Written(U, {}, d.ty, <<>>))
             s == TLCEval(TypeOf(U, acc.G, [x \in {} |-> 0], {}, d.e))
             again == LET bs == <<d.x>> \o Binders(d.e)
                      IN  IF Cardinality({bs[i] : i \in 1..Len(bs)} \ acc.names) # Len(bs) THEN bs ELSE <<>>
         IN  IF IsBad(t) THEN [acc EXCEPT !.bad = <<d.x, t>>]
             ELSE IF IsBad(s) THEN [acc EXCEPT !.bad = <<d.x, s>>]
             ELSE IF s # t THEN [acc EXCEPT !.bad = <<d.x, "declared type", t, "actual type", s>>]
             ELSE IF again # <<>> THEN [acc EXCEPT !.bad = <<d.x, "names are bound more than once", again>>]
             ELSE [acc EXCEPT !.G = (d.x :> t) @@ @,
                              !.names = @ \cup {d.x} \cup {Binders(d.e)[i] : i \in 1..Len(Binders(d.e))}]

CheckProgram(U, defs) ==
    FoldLeft(LAMBDA acc, d: TLCEval(CheckDef(U, acc, d)), [G |-> [x \in {} |-> 0], names |-> {}, bad |-> <<>>], defs)

RunDef(U, p, d, i, batches) ==
    IF p.end # <<>> THEN p
    ELSE LET s == Run(p.G, Start0(Code(U, d.e, p.vs, 0)), batches)
         IN  IF s[1] # "done" THEN [p EXCEPT !.end = s]
             ELSE [p EXCEPT !.G = Append(@, s[2]), !.vs = (d.x :> -i) @@ @,
                            !.out = IF d.exp # "" THEN Append(@, <<d.exp, s[2]>>) ELSE @]

RunProgram(U, defs, batches) ==
    LET p == FoldLeftDomain(LAMBDA acc, i: TLCEval(RunDef(U, acc, defs[i], i, batches)),
                            [G |-> <<>>, vs |-> [x \in {} |-> 0], out |-> <<>>, end |-> <<>>], defs)
    IN  IF p.end = <<>> THEN <<"ok", Output(p)>> ELSE p.end

(***************************************************************************)
(* Types of exported names, up to the number of arguments that functions   *)
(* take at once and the order of type parameters.                          *)
(***************************************************************************)
RECURSIVE Body(_)
Body(t) == IF t[1] = "all" THEN Body(t[2]) ELSE t

RECURSIVE Depth(_)
Depth(t) == IF t[1] = "all" THEN 1 + Depth(t[2]) ELSE 0

\* type with one argument at a time, as text; names: of variables, in order of occurrence
RECURSIVE Canonical(_, _), CanonicalAll(_, _, _)
CanonicalAll(ts, i, names) ==
    IF i > Len(ts) THEN [x |-> <<>>, names |-> names]
    ELSE LET a == Canonical(ts[i], names)
             r == CanonicalAll(ts, i + 1, a.names)
         IN  [x |-> <<a.x>> \o r.x, names |-> r.names]
Canonical(t, names) ==
    CASE t[1] \in {"bound", "var"} ->
            LET found == {i \in 1..Len(names) : names[i] = t}
            IN  IF found # {} THEN [x |-> <<"v", CHOOSE i \in found : TRUE>>, names |-> names]
                ELSE [x |-> <<"v", Len(names) + 1>>, names |-> Append(names, t)]
      [] t[1] = "fn" ->
            LET ps == CanonicalAll(t[2], 1, names)
                out == Canonical(t[3], ps.names)
            IN  [x |-> FoldRight(LAMBDA p, acc: <<"fn", <<p>>, acc>>, ps.x, out.x), names |-> out.names]
      [] t[1] = "data" ->
            LET args == CanonicalAll(t[4], 1, names)
            IN  [x |-> <<"data", t[2], t[3], args.x>>, names |-> args.names]
      [] OTHER -> [x |-> t, names |-> names]

Shape(t) == Canonical(Body(t), <<>>).x

\* type of an exported value of the source
SourceShape(defs, d) ==
    LET vars == {s \in DOMAIN defs : defs[s].k = "type" /\ defs[s].isvar}
    IN  Canonical(FromSource(d.ty, [s \in vars |-> <<"var", s>>]), <<>>).x
=============================================================================
