-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* What programs mean.  Source text of a definition is translated to code  *)
(* in which variables are positions in environments; code is run by an     *)
(* abstract machine.                                                       *)
(*                                                                         *)
(* Values:  <<"i", word>>  <<"b", bool>>  <<"s", bytes>>                   *)
(*   <<"c", ctor, fields>>  a constructor and fields given so far          *)
(*   <<"f", body, env>>  function                                          *)
(*   <<"r", named, body, env>>  structural fold                            *)
(*   <<"y", body, env>>  function that can call itself                     *)
(*   <<"p", name, args>>  builtin function and arguments given so far      *)
(*                                                                         *)
(* Code:  <<"val", v>>  <<"var", i>>  <<"glob", i>>  <<"app", f, a>>       *)
(*   <<"op", o, a, b>>  <<"let", v, b>>  <<"if", c, t, e>>                 *)
(*   <<"match", x, cases>>  <<"fun", body>>  <<"fold", named, body>>       *)
(*   <<"rec", body>>  function that is in its environment (only in Core)   *)
(*   <<"hole", message>>                                                   *)
(*                                                                         *)
(* Machine states:                                                         *)
(*   <<"ev", code, env, k>>  code is to be evaluated                       *)
(*   <<"rt", value, k>>  a value is returned                               *)
(*   <<"ap", f, a, k>>  a function is applied                              *)
(*   <<"done", value>>  <<"trap", message>>  <<"stuck", why>>              *)
(* where k is a stack of things that are left to do.                       *)
(***************************************************************************)
EXTENDS Front, Word, Show

(* -- translation ----------------------------------------------------------- *)

NoCode == [x \in {} |-> 0]

DigitValues == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
                   CHOOSE d \in 0..9 : ToString(d) = c]

WordOf(x) == FromDecimal([i \in 1..Len(x) |-> DigitValues[SubSeq(x, i, i)]])

BinaryCode(op, a, b) == IF op = "|>" THEN <<"app", b, a>> ELSE <<"op", op, a, b>>

(***************************************************************************)
(* cx: [b: bytes of the module; mod; at: position of a name -> symbol;     *)
(* glob: symbol -> code, fold: span of a lambda -> its argument is of a    *)
(* data type]; vs: local symbol -> position in the environment, which has  *)
(* n values.                                                               *)
(***************************************************************************)
RECURSIVE Lower(_, _, _, _), LowerCases(_, _, _, _, _)

LowerName(cx, name, vs) ==
    LET sym == cx.at[Pos(name)]
    IN  IF sym \in DOMAIN vs THEN <<"var", vs[sym]>> ELSE cx.glob[sym]

BindSym(cx, name, vs, n) == (<<cx.mod, Pos(name)>> :> n + 1) @@ vs

LowerCases(cx, cs, i, vs, n) ==
    IF i > Len(cs) THEN <<>>
    ELSE LET names == CaseVars(cs[i])
             vs1 == TLCEval(FoldLeftDomain(LAMBDA acc, j: BindSym(cx, names[j], acc, n + j - 1), vs, names))
         IN  <<[ctor |-> cx.at[Pos(Qualified(cs[i]))], n |-> Len(names),
                body |-> Lower(cx, ExprKid(cs[i], 1), vs1, n + Len(names))]>>
             \o LowerCases(cx, cs, i + 1, vs, n)

Lower(cx, x, vs, n) ==
    CASE x.n = "NameExpr" -> LowerName(cx, NameKid(x, 1), vs)
      [] x.n = "NsName" -> LowerName(cx, NameKid(x, 2), vs)
      [] x.n = "Number" -> <<"val", <<"i", WordOf(x.c[1].x)>>>>
      [] x.n = "Bool" -> <<"val", <<"b", x.c[1].k = "true">>>>
      [] x.n = "String" -> <<"val", <<"s", SubSeq(cx.b, x.c[1].s + 2, x.c[1].e - 1)>>>>
      [] x.n = "Paren" -> Lower(cx, ExprKid(x, 1), vs, n)
      [] x.n = "Apply" -> <<"app", Lower(cx, ExprKid(x, 1), vs, n), Lower(cx, ExprKid(x, 2), vs, n)>>
      [] x.n = "Binary" ->
            BinaryCode(Operator(x), Lower(cx, ExprKid(x, 1), vs, n), Lower(cx, ExprKid(x, 2), vs, n))
      [] x.n = "If" ->
            <<"if", Lower(cx, ExprKid(x, 1), vs, n), Lower(cx, ExprKid(x, 2), vs, n),
              Lower(cx, ExprKid(x, 3), vs, n)>>
      [] x.n = "Let" ->
            <<"let", Lower(cx, ExprKid(x, 1), vs, n),
              Lower(cx, ExprKid(x, 2), TLCEval(BindSym(cx, NameKid(x, 1), vs, n)), n + 1)>>
      [] x.n = "Lambda" ->
            LET body == Lower(cx, ExprKid(x, 1), TLCEval(BindSym(cx, NameKid(x, 1), vs, n)), n + 1)
            IN  IF HasToken(x, "fold") THEN <<"fold", cx.fold[Span(x)], body>> ELSE <<"fun", body>>
      [] x.n = "Match" ->
            <<"match", Lower(cx, ExprKid(x, 1), vs, n), LowerCases(cx, Kids(x, {"MatchCase"}), 1, vs, n)>>
      [] x.n = "Hole" -> <<"hole", "encountered " \o x.c[1].x>>

(***************************************************************************)
(* Is the argument of a fold of a data type?  Values of type variables     *)
(* are not looked into.                                                    *)
(***************************************************************************)
FoldKinds(defs, it) ==
    LET spans == {Span(x) : x \in {y \in {Descendants(it.c, 1, {"Lambda"})[i] :
                                            i \in 1..Len(Descendants(it.c, 1, {"Lambda"}))} : HasToken(y, "fold")}}
        TypeOf(sp) == it.xs[CHOOSE i \in 1..Len(it.xs) : it.xs[i][1] = sp[1] /\ it.xs[i][2] = sp[2]][3]
        Named(t) == t[1] = "named" /\ (t[2] \notin DOMAIN defs \/ ~defs[t[2]].isvar)
    IN  [sp \in spans |->
            LET t == TypeOf(sp)
                a == t[2]
            IN  IF a[1] = "fold" THEN Named(a[2]) ELSE Named(a)]

SymbolsAt(rs) ==
    LET at == {rs[i].s : i \in 1..Len(rs)}
    IN  [p \in at |-> rs[CHOOSE i \in 1..Len(rs) : rs[i].s = p].sym]

(* -- builtin functions ------------------------------------------------------ *)

\* number of arguments
Builtins == [iterate |-> 3, stringLength |-> 1, stringConcat |-> 2, stringCharAt |-> 2, stringSubstring |-> 3,
             stringFromChar |-> 1, intToString |-> 1]

IsBuiltin(mod, name) == mod = "std/intrinsics" /\ name \in DOMAIN Builtins

\* a word as an index: at most limit
Index(w, limit) == IF IsSmall(w) /\ w[1] < limit THEN w[1] ELSE limit

AsciiDigits(a) == LET ds == Decimal(a) IN [i \in 1..Len(ds) |-> 48 + ds[i]]

IsInt(v) == v[1] = "i"
IsStr(v) == v[1] = "s"

\* result of a builtin function other than iterate, or <<"stuck">>
Builtin(name, args) ==
    LET a == args[1]
        b == args[2]
        s == args[3]
        Ok(v) == <<"ok", v>>
        Not == <<"stuck">>
    IN  CASE name = "stringLength" -> IF IsStr(a) THEN Ok(<<"i", Word(Len(a[2]))>>) ELSE Not
          [] name = "stringConcat" -> IF IsStr(a) /\ IsStr(b) THEN Ok(<<"s", a[2] \o b[2]>>) ELSE Not
          [] name = "stringCharAt" ->
                IF IsInt(a) /\ IsStr(b)
                THEN LET i == Index(a[2], Len(b[2]))
                     IN  Ok(<<"i", <<IF i < Len(b[2]) THEN b[2][i + 1] ELSE 0>>>>)
                ELSE Not
          [] name = "stringSubstring" ->
                IF IsInt(a) /\ IsInt(b) /\ IsStr(s)
                THEN LET from == Index(a[2], Len(s[2]))
                         n == Index(b[2], Len(s[2]) - from)
                     IN  Ok(<<"s", SubSeq(s[2], from + 1, from + n)>>)
                ELSE Not
          [] name = "stringFromChar" -> IF IsInt(a) THEN Ok(<<"s", <<Remainder(a[2], <<256>>)[1]>>>>) ELSE Not
          [] name = "intToString" -> IF IsInt(a) THEN Ok(<<"s", AsciiDigits(a[2])>>) ELSE Not

Operation(op, a, b) ==
    CASE op = "+" -> <<"i", Plus(a, b)>>
      [] op = "-" -> <<"i", Minus(a, b)>>
      [] op = "*" -> <<"i", Times(a, b)>>
      [] op = "/" -> <<"i", Quotient(a, b)>>
      [] op = "%" -> <<"i", Remainder(a, b)>>
      [] op = "<" -> <<"b", Below(a, b)>>
      [] op = "<=" -> <<"b", NotAbove(a, b)>>
      [] op = ">" -> <<"b", Below(b, a)>>
      [] op = ">=" -> <<"b", NotAbove(b, a)>>
      [] op = "==" -> <<"b", a = b>>
      [] op = "!=" -> <<"b", a # b>>

(* -- machine ---------------------------------------------------------------- *)

Stuck(why) == <<"stuck", why>>

Saturated(v) == v[1] = "c" /\ Len(v[3]) = Len(v[2].rec)

\* G: values of globals
Evaluate(G, c, e, k) ==
    CASE c[1] = "var" -> <<"rt", e[c[2]], k>>
      [] c[1] = "val" -> <<"rt", c[2], k>>
      [] c[1] = "glob" -> <<"rt", G[c[2]], k>>
      [] c[1] = "app" -> <<"ev", c[2], e, <<<<"arg", c[3], e>>, k>>>>
      [] c[1] = "op" -> <<"ev", c[3], e, <<<<"right", c[2], c[4], e>>, k>>>>
      [] c[1] = "if" -> <<"ev", c[2], e, <<<<"if", c[3], c[4], e>>, k>>>>
      [] c[1] = "match" -> <<"ev", c[2], e, <<<<"match", c[3], e>>, k>>>>
      [] c[1] = "let" -> <<"ev", c[2], e, <<<<"let", c[3], e>>, k>>>>
      [] c[1] = "fun" -> <<"rt", <<"f", c[2], e>>, k>>
      [] c[1] = "fold" -> <<"rt", <<"r", c[2], c[3], e>>, k>>
      [] c[1] = "rec" -> <<"rt", <<"y", c[2], e>>, k>>
      [] c[1] = "hole" -> <<"trap", c[2]>>

RECURSIVE CaseOf(_, _, _)
CaseOf(cs, i, sym) == IF i > Len(cs) THEN 0 ELSE IF cs[i].ctor = sym THEN i ELSE CaseOf(cs, i + 1, sym)

\* fields of a value are folded one after another
NextField(f, v, i, done, k) ==
    IF i > Len(v[3]) THEN <<"ev", f[3], Append(f[4], <<"c", v[2], done>>), k>>
    ELSE IF v[2].rec[i] THEN <<"ap", f, v[3][i], <<<<"field", f, v, i, done>>, k>>>>
    ELSE <<"rt", v[3][i], <<<<"field", f, v, i, done>>, k>>>>

Return(v, k) ==
    IF Len(k) = 0 THEN <<"done", v>>
    ELSE LET f == k[1]
             rest == k[2]
         IN  CASE f[1] = "arg" -> <<"ev", f[2], f[3], <<<<"fun", v>>, rest>>>>
               [] f[1] = "fun" -> <<"ap", f[2], v, rest>>
               [] f[1] = "right" -> <<"ev", f[3], f[4], <<<<"op", f[2], v>>, rest>>>>
               [] f[1] = "op" ->
                    IF IsInt(f[3]) /\ IsInt(v) THEN <<"rt", Operation(f[2], f[3][2], v[2]), rest>>
                    ELSE Stuck("operator")
               [] f[1] = "if" ->
                    IF v[1] # "b" THEN Stuck("condition")
                    ELSE <<"ev", IF v[2] THEN f[2] ELSE f[3], f[4], rest>>
               [] f[1] = "let" -> <<"ev", f[2], Append(f[3], v), rest>>
               [] f[1] = "match" ->
                    IF ~Saturated(v) THEN Stuck("match")
                    ELSE LET i == CaseOf(f[2], 1, v[2].sym)
                         IN  IF i = 0 THEN Stuck("case")
                             ELSE IF f[2][i].n # Len(v[3]) THEN Stuck("fields")
                             ELSE <<"ev", f[2][i].body, f[3] \o v[3], rest>>
               [] f[1] = "field" -> NextField(f[2], f[3], f[4] + 1, Append(f[5], v), rest)
               [] f[1] = "iter" -> <<"ap", <<"p", "iterate", <<<<"i", Minus(f[2], One)>>, f[3]>>>>, v, rest>>

Apply(f, a, k) ==
    CASE f[1] = "f" -> <<"ev", f[2], Append(f[3], a), k>>
      [] f[1] = "y" -> <<"ev", f[2], f[3] \o <<f, a>>, k>>
      [] f[1] = "c" ->
            IF Saturated(f) THEN Stuck("application") ELSE <<"rt", <<"c", f[2], Append(f[3], a)>>, k>>
      [] f[1] = "r" ->
            IF ~f[2] THEN <<"ev", f[3], Append(f[4], a), k>>
            ELSE IF ~Saturated(a) THEN Stuck("fold")
            ELSE NextField(f, a, 1, <<>>, k)
      [] f[1] = "p" ->
            LET args == Append(f[3], a)
            IN  IF Len(args) < Builtins[f[2]] THEN <<"rt", <<"p", f[2], args>>, k>>
                ELSE IF f[2] = "iterate"
                THEN IF ~IsInt(args[1]) THEN Stuck("count")
                     ELSE IF args[1][2] = Zero THEN <<"rt", a, k>>
                     ELSE <<"ap", args[2], a, <<<<"iter", args[1][2], args[2]>>, k>>>>
                ELSE LET r == Builtin(f[2], args)
                     IN  IF r[1] = "ok" THEN <<"rt", r[2], k>> ELSE Stuck(f[2])
      [] OTHER -> Stuck("function")

Step(G, s) ==
    CASE s[1] = "ev" -> Evaluate(G, s[2], s[3], s[4])
      [] s[1] = "rt" -> Return(s[2], s[3])
      [] s[1] = "ap" -> Apply(s[2], s[3], s[4])
      [] OTHER -> s

Start0(c) == <<"ev", c, <<>>, <<>>>>
Ended(s) == s[1] \in {"done", "trap", "stuck"}

(***************************************************************************)
(* Running to the end.  (Steps are taken in batches because of how TLC     *)
(* evaluates recursion.)                                                   *)
(***************************************************************************)
Batch == [i \in 1..500 |-> i]

RECURSIVE Run(_, _, _)
Run(G, s, batches) ==
    IF Ended(s) THEN s
    ELSE IF batches = 0 THEN <<"fuel">>
    ELSE Run(G, FoldLeft(LAMBDA t, i: Step(G, t), s, Batch), batches - 1)

(* -- programs --------------------------------------------------------------- *)

(***************************************************************************)
(* A program state: values of globals so far (G), code of names of globals *)
(* (glob), modules whose definitions were evaluated (mods), values to be   *)
(* printed (out) and the last state of the machine if it was not `done'.   *)
(***************************************************************************)
NoProgram == [G |-> <<>>, glob |-> NoCode, mods |-> {}, out |-> <<>>, end |-> <<>>]

CtorCode(d) ==
    <<"val", <<"c", [sym |-> d.sym, x |-> d.x, rec |-> [i \in 1..Len(d.fields) |-> d.fields[i] = <<"rec">>]], <<>>>>>>

AddCtors(p, ds) ==
    FoldLeft(LAMBDA acc, d: IF d.k = "ctor" THEN [acc EXCEPT !.glob = (d.sym :> CtorCode(d)) @@ @] ELSE acc, p, ds)

DefineValue(p, u, it, x, batches, print) ==
    LET name == NameKid(x, 1)
        cx == [b |-> u.b, mod |-> u.mod, at |-> TLCEval(SymbolsAt(it.r)), glob |-> p.glob,
               fold |-> TLCEval(FoldKinds(u.defs, it))]
        s == IF IsBuiltin(u.mod, Text(name)) THEN <<"done", <<"p", Text(name), <<>>>>>>
             ELSE Run(p.G, Start0(Lower(cx, ExprKid(x, 1), NoCode, 0)), batches)
    IN  IF s[1] # "done" THEN [p EXCEPT !.end = s]
        ELSE [p EXCEPT !.G = Append(@, s[2]),
                       !.glob = (<<u.mod, Pos(name)>> :> <<"glob", Len(p.G) + 1>>) @@ @,
                       !.out = IF print /\ HasToken(x, "export") THEN Append(@, <<Text(name), s[2]>>) ELSE @]

(***************************************************************************)
(* Definitions of an imported module are evaluated when it is imported for *)
(* the first time.  units: module -> unit.                                 *)
(***************************************************************************)
RECURSIVE Items(_, _, _, _, _, _), Module(_, _, _, _, _)

Items(units, p, u, i, batches, print) ==
    IF i > Len(u.items) \/ p.end # <<>> THEN p
    ELSE LET it == u.items[i]
             x == FirstItem(it.c, 1)
             imports == SelectSeq(it.d, LAMBDA d: d.k = "module")
             p1 == CASE x.n = "ImportItem" ->
                            IF imports = <<>> THEN p ELSE Module(units, p, imports[1].mod, batches, FALSE)
                     [] x.n = "TypeItem" -> AddCtors(p, it.d)
                     [] x.n = "ValueItem" -> DefineValue(p, u, it, x, batches, print)
                     [] OTHER -> p
         IN  Items(units, p1, u, i + 1, batches, print)

Module(units, p, m, batches, print) ==
    IF m \in p.mods THEN p
    ELSE Items(units, [p EXCEPT !.mods = @ \cup {m}], units[m], 1, batches, print)

(* -- printing --------------------------------------------------------------- *)

RECURSIVE ShowValue(_, _)
ShowValue(v, atom) ==
    CASE v[1] = "i" -> ShowWord(v[2])
      [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
      [] v[1] = "s" -> ShowBytes(v[2])
      [] Saturated(v) ->
            LET x == v[2].x \o FoldLeft(LAMBDA acc, y: acc \o " " \o ShowValue(y, TRUE), "", v[3])
            IN  IF atom /\ v[3] # <<>> THEN "(" \o x \o ")" ELSE x
      [] OTHER -> IF atom THEN "(\\_ -> _)" ELSE "\\_ -> _"

Output(p) == FoldLeft(LAMBDA acc, x: acc \o x[1] \o " = " \o ShowValue(x[2], FALSE) \o "\n", "", p.out)
=============================================================================
