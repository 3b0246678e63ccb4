------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Types of expressions: kinds of types, inference by unification, and     *)
(* coverage of matches.  Everything known about symbols is in `defs', a    *)
(* function from symbols to definitions.                                   *)
(***************************************************************************)
EXTENDS Resolve, FiniteSets

(* -- numbers -------------------------------------------------------------- *)

MaxInt64 == "18446744073709551615"
Digits == "0123456789"
IsDigitChar(c) == \E i \in 1..10 : SubSeq(Digits, i, i) = c
DigitValue(c) == CHOOSE i \in 0..9 : SubSeq(Digits, i + 1, i + 1) = c

\* is the text of i digits (without leading zeros) above the text of a limit?
RECURSIVE Above(_, _, _)
Above(x, m, i) ==
    IF i > Len(x) THEN FALSE
    ELSE LET a == DigitValue(SubSeq(x, i, i))
             c == DigitValue(SubSeq(m, i, i))
         IN  IF a = c THEN Above(x, m, i + 1) ELSE a > c

TooLarge(x) == Len(x) > Len(MaxInt64) \/ (Len(x) = Len(MaxInt64) /\ Above(x, MaxInt64, 1))

\* x: digits read so far, without leading zeros
RECURSIVE NumberFault(_, _, _)
NumberFault(t, i, x) ==
    IF i > Len(t) THEN ""
    ELSE LET c == SubSeq(t, i, i)
         IN  IF ~IsDigitChar(c) THEN "invalid number"
             ELSE LET y == IF x = "0" \/ x = "" THEN c ELSE x \o c
                  IN  IF TooLarge(y) THEN "number is too large" ELSE NumberFault(t, i + 1, y)

RECURSIVE NumberErrors(_, _)
NumberErrors(ns, i) ==
    IF i > Len(ns) THEN <<>>
    ELSE LET t == ns[i].c[1]
             f == NumberFault(t.x, 1, "")
         IN  (IF f = "" THEN <<>> ELSE <<[s |-> t.s, e |-> t.e, sv |-> "error", m |-> <<Txt(f)>>]>>)
             \o NumberErrors(ns, i + 1)

(* -- kinds ---------------------------------------------------------------- *)

RECURSIVE WellKinded(_, _)
WellKinded(defs, t) ==
    CASE t[1] = "named" ->
            LET args == TLCEval([i \in 1..Len(t[3]) |-> WellKinded(defs, t[3][i])])
            IN  IF t[2] \in DOMAIN defs /\ Len(args) = defs[t[2]].pc THEN TyNamed(t[2], args) ELSE TyError
      [] t[1] \in {"fn", "fold"} -> <<t[1], WellKinded(defs, t[2]), WellKinded(defs, t[3])>>
      [] OTHER -> t

KindDef(defs, d) ==
    CASE d.k = "value" -> [d EXCEPT !.ty = WellKinded(defs, @)]
      [] d.k = "ctor" -> [d EXCEPT !.ty = WellKinded(defs, @),
                                   !.fields = [i \in 1..Len(@) |-> IF @[i] = <<"rec">> THEN @[i]
                                                                   ELSE WellKinded(defs, @[i])]]
      [] OTHER -> d

FirstAt(xs, s, e) ==
    LET J == {j \in 1..Len(xs) : xs[j].s = s /\ xs[j].e = e}
    IN  IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : j <= i

RECURSIVE KindErrors(_, _, _, _)
KindErrors(defs, refs, ts, i) ==
    IF i > Len(ts) THEN <<>>
    ELSE LET name == Qualified(ts[i])
             n == Len(Kids(ts[i], TypeNodes))
             here == IF ~Present(name) THEN <<>>
                     ELSE LET j == FirstAt(refs, name.s, name.e)
                          IN  IF j = 0 THEN <<>>
                              ELSE LET sym == refs[j].sym
                                       pc == defs[sym].pc
                                   IN  IF pc = n THEN <<>>
                                       ELSE <<[s |-> name.s, e |-> name.e, sv |-> "error",
                                               m |-> <<Ty(TyNamed(sym, <<>>)), Txt(" expects "), Num(pc),
                                                       Txt(" type arguments, got "), Num(n)>>]>>
         IN  here \o KindErrors(defs, refs, ts, i + 1)

(* -- unification ---------------------------------------------------------- *)
(* A substitution is a sequence; <<"free">> is a variable without a value.   *)
(* Variable 1 is never used, so that no substitution is empty (Fail).        *)

Free == <<"free">>

RECURSIVE Walk(_, _)
Walk(sub, t) == IF t[1] = "var" /\ sub[t[2]] # Free THEN Walk(sub, sub[t[2]]) ELSE t

RECURSIVE Occurs(_, _, _)
Occurs(sub, n, t0) ==
    LET t == Walk(sub, t0)
    IN  CASE t[1] = "var" -> t[2] = n
          [] t[1] = "named" -> \E i \in 1..Len(t[3]) : Occurs(sub, n, t[3][i])
          [] t[1] \in {"fn", "fold"} -> Occurs(sub, n, t[2]) \/ Occurs(sub, n, t[3])
          [] OTHER -> FALSE

Fail == <<>>

\* a substitution that makes the types equal, or Fail
RECURSIVE Unify(_, _, _), UnifyAll(_, _, _, _)
UnifyAll(sub, as, bs, i) ==
    IF sub = Fail \/ i > Len(as) THEN sub
    ELSE UnifyAll(Unify(sub, as[i], bs[i]), as, bs, i + 1)

Unify(sub, t1, t2) ==
    LET a == Walk(sub, t1)
        b == Walk(sub, t2)
    IN  IF a[1] = "var" THEN
            IF b = a THEN sub
            ELSE IF Occurs(sub, a[2], b) THEN Fail
            ELSE [sub EXCEPT ![a[2]] = b]
        ELSE IF b[1] = "var" THEN
            IF Occurs(sub, b[2], a) THEN Fail ELSE [sub EXCEPT ![b[2]] = a]
        ELSE IF a[1] = "err" \/ b[1] = "err" THEN sub
        ELSE IF a[1] # b[1] THEN Fail
        ELSE CASE a[1] \in {"int", "bool", "string"} -> sub
               [] a[1] = "named" ->
                    IF a[2] = b[2] /\ Len(a[3]) = Len(b[3]) THEN UnifyAll(sub, a[3], b[3], 1) ELSE Fail
               [] a[1] \in {"fn", "fold"} ->
                    LET s == Unify(sub, a[2], b[2])
                    IN  IF s = Fail THEN Fail ELSE Unify(s, a[3], b[3])

\* what is known about a type
RECURSIVE Known(_, _)
Known(sub, t0) ==
    LET t == Walk(sub, t0)
    IN  CASE t[1] = "var" -> TyInfer
          [] t[1] = "named" -> TyNamed(t[2], TLCEval([i \in 1..Len(t[3]) |-> Known(sub, t[3][i])]))
          [] t[1] \in {"fn", "fold"} -> <<t[1], Known(sub, t[2]), Known(sub, t[3])>>
          [] OTHER -> t

\* variables left in a type are taken to be int
RECURSIVE DefaultToInt(_, _), DefaultAll(_, _, _)
DefaultAll(sub, ts, i) ==
    IF i > Len(ts) THEN sub ELSE DefaultAll(DefaultToInt(sub, ts[i]), ts, i + 1)
DefaultToInt(sub, t0) ==
    LET t == Walk(sub, t0)
    IN  CASE t[1] = "var" -> [sub EXCEPT ![t[2]] = TyInt]
          [] t[1] = "named" -> DefaultAll(sub, t[3], 1)
          [] t[1] \in {"fn", "fold"} -> DefaultToInt(DefaultToInt(sub, t[2]), t[3])
          [] OTHER -> sub

RECURSIVE Instance(_, _)
\* inst: function from type variables' symbols to types
Instance(t, inst) ==
    CASE t[1] = "named" ->
            IF t[2] \in DOMAIN inst THEN inst[t[2]]
            ELSE TyNamed(t[2], TLCEval([i \in 1..Len(t[3]) |-> Instance(t[3][i], inst)]))
      [] t[1] \in {"fn", "fold"} -> <<t[1], Instance(t[2], inst), Instance(t[3], inst)>>
      [] OTHER -> t

(* -- inference ------------------------------------------------------------ *)
(* State: sub; types of checked expressions (xs: span and type); errors;     *)
(* annotated lets (rig).  env.at: name's position -> symbol; env.inf: symbol *)
(* of a name without annotation -> its variable; env.defs.                   *)

FreshVar(st) == TyVar(Len(st.sub) + 1)
WithVars(st, n) ==
    CASE n = 0 -> st
      [] n = 1 -> [st EXCEPT !.sub = Append(@, Free)]
      [] n = 2 -> [st EXCEPT !.sub = @ \o <<Free, Free>>]
      [] OTHER -> [st EXCEPT !.sub = @ \o TLCEval([i \in 1..n |-> Free])]

TypeErr(st, x, m) ==
    [st EXCEPT !.er = Append(@, [s |-> x.s, e |-> x.e, sv |-> "error", m |-> m])]

Equate(st, expected, actual, x) ==
    LET sub == Unify(st.sub, expected, actual)
    IN  IF sub # Fail THEN [st EXCEPT !.sub = sub]
        ELSE TypeErr(st, x, <<Txt("expected "), Ty(Known(st.sub, expected)), Txt(", got "),
                              Ty(Known(st.sub, actual))>>)

Taint(st, t0) ==
    LET t == Walk(st.sub, t0)
    IN  IF t[1] = "var" THEN [st EXCEPT !.sub[t[2]] = TyError] ELSE st

\* Types in definitions that are not known yet
RECURSIVE FillIn(_, _), FillAll(_, _, _, _)
FillAll(st, ts, i, acc) ==
    IF i > Len(ts) THEN [st |-> st, ty |-> acc]
    ELSE LET r == FillIn(st, ts[i]) IN FillAll(r.st, ts, i + 1, Append(acc, r.ty))
FillIn(st, t) ==
    CASE t[1] = "infer" -> [st |-> WithVars(st, 1), ty |-> FreshVar(st)]
      [] t[1] = "named" -> LET r == FillAll(st, t[3], 1, <<>>)
                           IN  [st |-> r.st, ty |-> TyNamed(t[2], r.ty)]
      [] t[1] \in {"fn", "fold"} -> LET a == FillIn(st, t[2])
                                        b == FillIn(a.st, t[3])
                                    IN  [st |-> b.st, ty |-> <<t[1], a.ty, b.ty>>]
      [] OTHER -> [st |-> st, ty |-> t]

\* variables base + 1.. for the first n type variables
RECURSIVE Fresh(_, _, _)
Fresh(tvs, n, base) ==
    IF n = 0 THEN [x \in {} |-> 0] ELSE (tvs[n] :> TyVar(base + n)) @@ Fresh(tvs, n - 1, base)

\* type of a name: generic in type variables of its definition, or not
NameType(env, st, sym, generic) ==
    IF sym \in DOMAIN env.inf THEN [st |-> st, ty |-> TyVar(env.inf[sym])]
    ELSE LET d == env.defs[sym]
         IN  IF d.k \notin {"value", "ctor"} THEN [st |-> st, ty |-> TyError]
             ELSE LET n == IF generic THEN Len(d.tvs) ELSE 0
                      base == Len(st.sub)
                      inst == Fresh(d.tvs, n, base)
                      r == FillIn(WithVars(st, n), d.ty)
                  IN  [st |-> r.st, ty |-> Instance(r.ty, inst)]

ArithOps == {"+", "-", "*", "/", "%"}
CompareOps == {"<", "<=", ">", ">=", "==", "!="}

RECURSIVE Check(_, _, _, _), CheckCases(_, _, _, _, _, _, _), CheckFields(_, _, _, _, _, _, _)

CheckFields(env, st, vars, i, fields, inst, rec) ==
    IF i > Len(vars) THEN st
    ELSE LET n == NameType(env, st, <<env.mod, Pos(vars[i])>>, TRUE)
             f == FillIn(n.st, fields[i])
             ty == IF fields[i] = <<"rec">> THEN rec ELSE Instance(f.ty, inst)
         IN  CheckFields(env, Equate(f.st, ty, n.ty, vars[i]), vars, i + 1, fields, inst, rec)

CheckCases(env, st, cs, i, primary, rec, expected) ==
    IF i > Len(cs) THEN st
    ELSE LET name == Qualified(cs[i])
             vars == CaseVars(cs[i])
             known == Present(name) /\ Pos(name) \in DOMAIN env.at
             d == env.defs[env.at[Pos(name)]]
             st1 ==
                IF ~known \/ d.k # "ctor" THEN st
                ELSE LET n == Len(d.tvs)
                         base == Len(st.sub)
                         inst == Fresh(d.tvs, n, base)
                         ty == TyNamed(d.tsym, TLCEval([j \in 1..n |-> TyVar(base + j)]))
                         s1 == Equate(WithVars(st, n), primary, ty, name)
                     IN  IF Len(vars) # Len(d.fields)
                         THEN TypeErr(s1, [s |-> name.s,
                                           e |-> IF vars = <<>> THEN name.e ELSE Last(vars).e],
                                      <<Txt("expected "), Num(Len(d.fields)), Txt(" fields, got "),
                                        Num(Len(vars))>>)
                         ELSE CheckFields(env, s1, vars, 1, d.fields, inst, rec)
             st2 == IF Present(name) THEN Check(env, st1, ExprKid(cs[i], 1), expected) ELSE st1
         IN  CheckCases(env, st2, cs, i + 1, primary, rec, expected)

Check(env, st0, x, expected) ==
    IF ~Present(x) THEN st0
    ELSE LET st == [st0 EXCEPT !.xs = Append(@, <<x.s, x.e, expected>>)]
             Name(name) ==
                IF Present(name) /\ Pos(name) \in DOMAIN env.at
                THEN LET n == NameType(env, st, env.at[Pos(name)], TRUE)
                     IN  Equate(n.st, expected, n.ty, name)
                ELSE st
         IN
    CASE x.n = "Hole" -> st
      [] x.n = "Bool" -> Equate(st, expected, TyBool, x)
      [] x.n = "Number" -> Equate(st, expected, TyInt, x)
      [] x.n = "String" -> Equate(st, expected, TyString, x)
      [] x.n = "NameExpr" -> Name(NameKid(x, 1))
      [] x.n = "NsName" -> Name(NameKid(x, 2))
      [] x.n = "Paren" ->
            IF Present(ExprKid(x, 1)) THEN Check(env, st, ExprKid(x, 1), expected)
            ELSE Taint(st, expected)
      [] x.n = "Apply" ->
            LET a == FreshVar(st)
                b == TyVar(a[2] + 1)
                st1 == Check(env, WithVars(st, 2), ExprKid(x, 1), TyFn(a, b))
                st2 == Check(env, st1, ExprKid(x, 2), a)
            IN  Equate(st2, expected, b, x)
      [] x.n = "Binary" ->
            LET op == Operator(x)
                Operands(t) == Check(env, Check(env, st, ExprKid(x, 1), t), ExprKid(x, 2), t)
            IN  IF op \in ArithOps THEN Equate(Operands(TyInt), expected, TyInt, x)
                ELSE IF op \in CompareOps THEN Equate(Operands(TyInt), expected, TyBool, x)
                ELSE IF op = "|>"
                THEN LET a == FreshVar(st)
                         st1 == Check(env, WithVars(st, 1), ExprKid(x, 1), a)
                     IN  IF ~Present(ExprKid(x, 2)) THEN Taint(st1, expected)
                         ELSE LET b == FreshVar(st1)
                                  st2 == Check(env, WithVars(st1, 1), ExprKid(x, 2), TyFn(a, b))
                              IN  Equate(st2, expected, b, x)
                ELSE Taint(Operands(TyError), expected)
      [] x.n = "If" ->
            Check(env, Check(env, Check(env, st, ExprKid(x, 1), TyBool),
                             ExprKid(x, 2), expected), ExprKid(x, 3), expected)
      [] x.n = "Lambda" ->
            LET name == NameKid(x, 1)
                n == IF Present(name) THEN NameType(env, st, <<env.mod, Pos(name)>>, TRUE)
                     ELSE [st |-> st, ty |-> TyError]
                a == FreshVar(n.st)
                b == TyVar(a[2] + 1)
                arg == IF HasToken(x, "fold") THEN TyFolded(a, b) ELSE a
                st1 == Equate(WithVars(n.st, 2), n.ty, arg, x)
                st2 == Equate(st1, expected, TyFn(a, b), x)
            IN  Check(env, st2, ExprKid(x, 1), b)
      [] x.n = "Let" ->
            LET name == NameKid(x, 1)
                value == ExprKid(x, 1)
                sym == <<env.mod, Pos(name)>>
                n == IF Present(name) THEN NameType(env, st, sym, FALSE)
                     ELSE [st |-> st, ty |-> TyError]
                st1 == IF Present(name) /\ Present(value) /\ sym \notin DOMAIN env.inf
                       THEN [n.st EXCEPT !.rig = Append(@, [ns |-> name.s, ne |-> name.e,
                                                            vs |-> value.s, ve |-> value.e,
                                                            tvs |-> env.defs[sym].tvs])]
                       ELSE n.st
            IN  Check(env, Check(env, st1, value, n.ty), ExprKid(x, 2), expected)
      [] x.n = "Match" ->
            LET d == FreshVar(st)
                st1 == Check(env, WithVars(st, 1), ExprKid(x, 1), d)
                t == Walk(st1.sub, d)
                folded == t[1] = "fold"
            IN  CheckCases(env, st1, Kids(x, {"MatchCase"}), 1,
                           IF folded THEN t[2] ELSE d, IF folded THEN t[3] ELSE d, expected)

RECURSIVE Mentions(_, _)
Mentions(t, sym) ==
    CASE t[1] = "named" -> t[2] = sym \/ \E i \in 1..Len(t[3]) : Mentions(t[3][i], sym)
      [] t[1] \in {"fn", "fold"} -> Mentions(t[2], sym) \/ Mentions(t[3], sym)
      [] OTHER -> FALSE

\* a type variable must not get into types of names outside of its scope
EscapeError(env, st, ds, g) ==
    LET tys == [j \in 1..Len(ds) |->
                  IF ds[j].sym \in DOMAIN env.inf /\ (ds[j].e <= g.vs \/ g.ve <= ds[j].s)
                  THEN Known(st.sub, TyVar(env.inf[ds[j].sym])) ELSE TyInt]
        J == {j \in 1..Len(ds) : \E i \in 1..Len(g.tvs) : Mentions(tys[j], g.tvs[i])}
    IN  IF J = {} THEN <<>>
        ELSE LET j == CHOOSE j \in J : \A k \in J : j <= k
                 I == {i \in 1..Len(g.tvs) : Mentions(tys[j], g.tvs[i])}
                 i == CHOOSE i \in I : \A k \in I : i <= k
             IN  <<[s |-> g.ns, e |-> g.ne, sv |-> "error",
                    m |-> <<Txt("type variable "), Sym(g.tvs[i]), Txt(" escapes into the type of "),
                            Sym(ds[j].sym)>>]>>

RECURSIVE EscapeErrors(_, _, _, _)
EscapeErrors(env, st, ds, i) ==
    IF i > Len(st.rig) THEN <<>>
    ELSE EscapeError(env, st, ds, st.rig[i]) \o EscapeErrors(env, st, ds, i + 1)

\* definitions of the item whose types are to be inferred, in order
RECURSIVE InferVars(_, _, _, _)
InferVars(ds, i, n, acc) ==
    IF i > Len(ds) THEN acc
    ELSE IF ds[i].k = "value" /\ ds[i].ty = TyInfer /\ ds[i].sym \notin DOMAIN acc
         THEN InferVars(ds, i + 1, n + 1, acc @@ (ds[i].sym :> n + 1))
         ELSE InferVars(ds, i + 1, n, acc)

NoSymbols == [x \in {} |-> 0]

\* symbols by positions of their uses
UsesAt(refs) == FoldLeft(LAMBDA acc, r: (r.s :> r.sym) @@ acc, NoSymbols, refs)

\* Types of an item x with definitions ds and uses refs
InferItem(mod, defs, x, ds, refs) ==
    LET inf == TLCEval(InferVars(ds, 1, 1, NoSymbols))
        at == TLCEval(UsesAt(refs))
        env == [mod |-> mod, defs |-> defs, at |-> at, inf |-> inf]
        st0 == [sub |-> TLCEval([i \in 1..(1 + Cardinality(DOMAIN inf)) |-> Free]), xs |-> <<>>, er |-> <<>>, rig |-> <<>>]
        name == NameKid(x, 1)
        n == IF Present(name) THEN NameType(env, st0, <<mod, Pos(name)>>, FALSE)
             ELSE [st |-> st0, ty |-> TyError]
        st1 == Check(env, n.st, ExprKid(x, 1), n.ty)
        st2 == IF x.n = "ValueItem" THEN [st1 EXCEPT !.sub = DefaultToInt(@, n.ty)] ELSE st0
    IN  [er |-> st2.er \o EscapeErrors(env, st2, ds, 1),
         d |-> [i \in 1..Len(ds) |->
                  IF ds[i].k = "value" /\ ds[i].sym \in DOMAIN inf
                  THEN [ds[i] EXCEPT !.ty = Known(st2.sub, TyVar(inf[ds[i].sym]))] ELSE ds[i]],
         xs |-> [i \in 1..Len(st2.xs) |->
                   <<st2.xs[i][1], st2.xs[i][2], Known(st2.sub, st2.xs[i][3])>>]]

(* -- coverage of matches -------------------------------------------------- *)

CoverErr(x, m) == <<[s |-> x.s, e |-> x.e, sv |-> "error", m |-> m]>>

NotCovered(x, missing) ==
    CASE Len(missing) = 0 -> <<>>
      [] Len(missing) = 1 -> CoverErr(x, <<Txt("pattern "), Sym(missing[1]), Txt(" not covered")>>)
      [] Len(missing) = 2 -> CoverErr(x, <<Txt("patterns "), Sym(missing[1]), Txt(" and "),
                                           Sym(missing[2]), Txt(" not covered")>>)
      [] OTHER -> CoverErr(x, <<Txt("patterns "), Sym(missing[1]), Txt(" and "),
                                Num(Len(missing) - 1), Txt(" more not covered")>>)

RECURSIVE CoverCases(_, _, _, _, _, _)
CoverCases(x, cs, i, refs, all, missing) ==
    IF i > Len(cs) THEN NotCovered(x, missing)
    ELSE LET name == Qualified(cs[i])
             j == IF Present(name) THEN FirstAt(refs, name.s, name.e) ELSE 0
         IN  IF j = 0 THEN <<>>
             ELSE LET sym == refs[j].sym
                      In(s) == \E k \in 1..Len(s) : s[k] = sym
                  IN  IF ~In(all) THEN CoverCases(x, cs, i + 1, refs, all, missing)
                      ELSE (IF In(missing) THEN <<>> ELSE CoverErr(cs[i], <<Txt("unreachable pattern")>>))
                           \o CoverCases(x, cs, i + 1, refs, all,
                                         SelectSeq(missing, LAMBDA c: c # sym))

Cover(defs, refs, types, x) ==
    LET discr == ExprKid(x, 1)
        at == {j \in 1..Len(types) : types[j][1] = discr.s /\ types[j][2] = discr.e}
    IN  IF ~Present(discr) \/ at = {} THEN <<>>
        ELSE LET ty == types[CHOOSE j \in at : TRUE][3]
                 inner == IF ty[1] = "fold" THEN ty[2] ELSE ty
                 Cannot(t) == CoverErr(discr, <<Txt("cannot match on "), Ty(t)>>)
             IN  IF inner[1] = "err" THEN <<>>
                 ELSE IF inner[1] # "named" THEN Cannot(inner)
                 ELSE IF inner[2] \notin DOMAIN defs THEN <<>>
                 ELSE LET d == defs[inner[2]]
                      IN  IF d.opaque THEN Cannot(ty)
                          ELSE CoverCases(x, Kids(x, {"MatchCase"}), 1, refs, d.ctors, d.ctors)

RECURSIVE CoverErrors(_, _, _, _, _)
CoverErrors(defs, refs, types, ms, i) ==
    IF i > Len(ms) THEN <<>>
    ELSE Cover(defs, refs, types, ms[i]) \o CoverErrors(defs, refs, types, ms, i + 1)
=============================================================================
