------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* Grammar of tic as a deterministic parser over proper tokens.  Every     *)
(* parsing operator takes the tokens T and a parser state p, and returns   *)
(* the next state together with the syntax elements it adds to the node    *)
(* under construction.  The parser state has the index of the next token,  *)
(* the hints and tokens expected at this point, reported errors and the    *)
(* number of tokens accepted since the last error.                         *)
(***************************************************************************)
EXTENDS Lex

Init0(i, start) == [i |-> i, h |-> {}, x |-> {}, er |-> <<>>, sn |-> 2,
                    pos |-> start, last |-> start]

K(T, p) == IF p.i <= Len(T) THEN T[p.i].k ELSE "EOF"

Res(p, c) == [p |-> p, c |-> c]
Hint(p, h) == [p EXCEPT !.h = @ \cup {h}]
Exp(p, k) == [p EXCEPT !.x = @ \cup {k}]

Tok(tok) == [n |-> "TOK", k |-> tok.k, s |-> tok.s, e |-> tok.e, x |-> tok.x]

Advance(T, p) == [p EXCEPT !.i = @ + 1, !.h = {}, !.x = {}, !.sn = @ + 1,
                           !.pos = T[p.i].tp, !.last = T[p.i].e]

Bump(T, p) == Res(Advance(T, p), <<Tok(T[p.i])>>)

\* A node made of the given elements, started in state p0
Node(n, p0, c) ==
    [n |-> n, c |-> c,
     s |-> IF c = <<>> THEN p0.pos ELSE c[1].s,
     e |-> IF c = <<>> THEN p0.pos ELSE c[Len(c)].e]

(* -- errors ------------------------------------------------------------- *)

HintOrder == <<"definition", "type", "expression", "operator">>

StartTokens(h) ==
    CASE h = "definition" -> {"type", "export", "let"}
      [] h = "type" -> {"int", "bool", "string", "rec", "(", "NAME"}
      [] h = "expression" -> {"let", "match", "if", "true", "false", "(", "\\", "NAME",
                              "HOLE", "NUM", "STR"}
      [] h = "operator" -> {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"}

RECURSIVE JoinOr(_, _)
JoinOr(es, i) ==
    IF i = Len(es) THEN es[i]
    ELSE IF Len(es) = 2 THEN es[1] \o " or " \o es[2]
    ELSE IF i = Len(es) - 1 THEN es[i] \o ", or " \o es[i + 1]
    ELSE es[i] \o ", " \o JoinOr(es, i + 1)

Expectations(p) ==
    LET hs == SelectSeq(HintOrder, LAMBDA h: h \in p.h)
        covered == UNION {StartTokens(h) : h \in p.h}
        ks == SelectSeq(KindOrder, LAMBDA k: k \in p.x /\ k \notin covered)
    IN  hs \o [i \in 1..Len(ks) |-> KindText(ks[i])]

Message(T, p) ==
    IF K(T, p) = "ERR" THEN "bad token"
    ELSE LET m == "expected " \o JoinOr(Expectations(p), 1)
         IN  IF K(T, p) = "EOF" THEN m ELSE m \o ", got " \o KindText(K(T, p))

EmitError(T, p) ==
    LET sp == IF p.i <= Len(T) THEN <<T[p.i].s, T[p.i].e>> ELSE <<p.last, p.last>>
        q == [p EXCEPT !.er = IF p.sn >= 2
                              THEN Append(@, [s |-> sp[1], e |-> sp[2], m |-> Message(T, p)])
                              ELSE @,
                       !.sn = 0]
    IN  IF K(T, p) = "ERR" THEN Bump(T, q) ELSE Res(q, <<>>)

Expect(T, p, k) == IF K(T, p) = k THEN Bump(T, p) ELSE EmitError(T, Exp(p, k))

NameNode(T, p) == LET r == Bump(T, p) IN Res(r.p, <<Node("Name", p, r.c)>>)

ExpectName(T, p) == IF K(T, p) = "NAME" THEN NameNode(T, p) ELSE EmitError(T, Exp(p, "NAME"))

Then(r, q) == Res(q.p, r.c \o q.c)

\* r followed by a token, or nothing (but the token was possible there)
Maybe(T, r, k) == IF K(T, r.p) = k THEN Then(r, Bump(T, r.p)) ELSE Res(Exp(r.p, k), r.c)
ThenExpect(T, r, k) == Then(r, Expect(T, r.p, k))
ThenName(T, r) == Then(r, ExpectName(T, r.p))

(* -- types -------------------------------------------------------------- *)

\* `.' and a name, if there is a dot
DotName(T, r) ==
    IF K(T, r.p) = "." THEN ThenName(T, Then(r, Bump(T, r.p))) ELSE Res(Exp(r.p, "."), r.c)

RECURSIVE TypeP(_, _), AtomType(_, _), TypeArgs(_, _)

AtomType(T, p0) ==
    LET p == Hint(p0, "type")
        k == K(T, p)
        One(n) == LET r == Bump(T, p) IN Res(r.p, <<Node(n, p, r.c)>>)
    IN  CASE k = "int" -> One("IntType")
          [] k = "bool" -> One("BoolType")
          [] k = "string" -> One("StringType")
          [] k = "NAME" ->
                LET r == DotName(T, NameNode(T, p))
                IN  Res(r.p, <<Node("NamedType", p, r.c)>>)
          [] k = "(" ->
                LET r1 == Bump(T, p)
                    r2 == Then(r1, TypeP(T, r1.p))
                    r3 == ThenExpect(T, r2, ")")
                IN  Res(r3.p, <<Node("ParenType", p, r3.c)>>)
          [] k = "rec" ->
                LET q == EmitError(T, p).p
                    r == Bump(T, q)
                IN  Res(r.p, <<Node("ErrType", q, r.c)>>)
          [] OTHER -> Res(p, <<>>)

TypeArgs(T, r) ==
    LET a == AtomType(T, r.p)
    IN  IF a.c = <<>> THEN Res(a.p, r.c) ELSE TypeArgs(T, Then(r, a))

NonFnType(T, p) ==
    IF K(T, p) = "NAME"
    THEN LET r == TypeArgs(T, DotName(T, NameNode(T, p)))
         IN  Res(r.p, <<Node("NamedType", p, r.c)>>)
    ELSE AtomType(T, p)

TypeP(T, p0) ==
    LET p == Hint(p0, "type")
        r == NonFnType(T, p)
    IN  IF r.c = <<>>
        THEN LET r1 == EmitError(T, r.p)
                 k == K(T, r1.p)
             IN  IF k = "EOF" \/ k \in StartTokens("type") THEN r1
                 ELSE LET r2 == Bump(T, r1.p)
                      IN  Res(r2.p, r1.c \o <<Node("Error", r1.p, r2.c)>>)
        ELSE IF K(T, r.p) = "->"
        THEN LET r1 == Then(r, Bump(T, r.p))
                 r2 == Then(r1, TypeP(T, r1.p))
             IN  Res(r2.p, <<Node("FnType", p, r2.c)>>)
        ELSE Res(Exp(r.p, "->"), r.c)

(* -- expressions -------------------------------------------------------- *)

Power(k) ==
    CASE k = "|>" -> 1
      [] k \in {"<", "<=", ">", ">=", "==", "!="} -> 3
      [] k \in {"+", "-"} -> 7
      [] k \in {"*", "/", "%"} -> 9
      [] OTHER -> 0

RECURSIVE ExprP(_, _), OpExpr(_, _, _), OpTail(_, _, _, _), AtomExpr(_, _), ApplyTail(_, _),
          MatchCases(_, _), NameList(_, _)

\* names, as many as there are
NameList(T, r) ==
    IF K(T, r.p) = "NAME" THEN NameList(T, Then(r, NameNode(T, r.p))) ELSE Res(Exp(r.p, "NAME"), r.c)

AtomExpr(T, p0) ==
    LET p == Hint(p0, "expression")
        k == K(T, p)
        One(n) == LET r == Bump(T, p) IN Res(r.p, <<Node(n, p, r.c)>>)
    IN  CASE k = "(" ->
                LET r1 == Bump(T, p)
                    r2 == Then(r1, ExprP(T, r1.p))
                    r3 == ThenExpect(T, r2, ")")
                IN  Res(r3.p, <<Node("Paren", p, r3.c)>>)
          [] k \in {"true", "false"} -> One("Bool")
          [] k = "NUM" -> One("Number")
          [] k = "STR" -> One("String")
          [] k = "HOLE" -> One("Hole")
          [] k = "NAME" ->
                LET r1 == NameNode(T, p)
                    r2 == DotName(T, r1)
                IN  Res(r2.p, <<Node(IF K(T, r1.p) = "." THEN "NsName" ELSE "NameExpr", p, r2.c)>>)
          [] OTHER -> Res(p, <<>>)

\* r has a single node, the function applied so far
ApplyTail(T, r) ==
    LET a == AtomExpr(T, r.p)
    IN  IF a.c = <<>> THEN Res(a.p, r.c)
        ELSE ApplyTail(T, Res(a.p, <<Node("Apply", r.p, r.c \o a.c)>>))

OpTail(T, p, m, min) ==
    LET q == Hint(p, "operator")
        w == Power(K(T, q))
    IN  IF w = 0 \/ w < min THEN Res(q, <<m>>)
        ELSE LET op == Bump(T, q)
                 rhs == OpExpr(T, op.p, w + 1)
             IN  OpTail(T, rhs.p,
                        Node("Binary", q, <<m, Node("BinaryOp", q, op.c)>> \o rhs.c), min)

OpExpr(T, p0, min) ==
    LET p == Hint(p0, "expression")
        a == AtomExpr(T, p)
    IN  IF a.c = <<>> THEN EmitError(T, a.p)
        ELSE LET f == ApplyTail(T, a)
             IN  OpTail(T, f.p, f.c[1], min)

MatchCases(T, r) ==
    IF K(T, r.p) # "|" THEN Res(Exp(r.p, "|"), r.c)
    ELSE LET r1 == ThenName(T, Bump(T, r.p))
             r2 == DotName(T, r1)
             vs == NameList(T, Res(r2.p, <<>>))
             r3 == Res(vs.p, r2.c \o <<Node("MatchVars", r2.p, vs.c)>>)
             r4 == ThenExpect(T, r3, "->")
             r5 == Then(r4, ExprP(T, r4.p))
         IN  MatchCases(T, Res(r5.p, r.c \o <<Node("MatchCase", r.p, r5.c)>>))

ExprP(T, p0) ==
    LET p == Hint(p0, "expression")
        k == K(T, p)
    IN  CASE k = "let" ->
                LET r1 == ThenName(T, Bump(T, p))
                    r2 == IF K(T, r1.p) = ":"
                          THEN LET c == Then(r1, Bump(T, r1.p)) IN Then(c, TypeP(T, c.p))
                          ELSE Res(Exp(r1.p, ":"), r1.c)
                    r3 == ThenExpect(T, r2, "=")
                    r4 == Then(r3, ExprP(T, r3.p))
                    r5 == ThenExpect(T, r4, ";")
                    r6 == Then(r5, ExprP(T, r5.p))
                IN  Res(r6.p, <<Node("Let", p, r6.c)>>)
          [] k = "match" ->
                LET r1 == Bump(T, p)
                    r2 == Then(r1, ExprP(T, r1.p))
                    r3 == ThenExpect(T, r2, "with")
                    r4 == MatchCases(T, r3)
                    r5 == ThenExpect(T, r4, "end")
                IN  Res(r5.p, <<Node("Match", p, r5.c)>>)
          [] k = "if" ->
                LET r1 == Bump(T, p)
                    r2 == Then(r1, ExprP(T, r1.p))
                    r3 == ThenExpect(T, r2, "then")
                    r4 == Then(r3, ExprP(T, r3.p))
                    r5 == ThenExpect(T, r4, "else")
                    r6 == Then(r5, ExprP(T, r5.p))
                IN  Res(r6.p, <<Node("If", p, r6.c)>>)
          [] k = "\\" ->
                LET r1 == Maybe(T, Bump(T, p), "fold")
                    r2 == ThenName(T, r1)
                    r3 == ThenExpect(T, r2, "->")
                    r4 == Then(r3, ExprP(T, r3.p))
                IN  Res(r4.p, <<Node("Lambda", p, r4.c)>>)
          [] OTHER -> OpExpr(T, p, 0)

(* -- items -------------------------------------------------------------- *)

\* r has an optional `export' token
ValueItemP(T, p, r) ==
    LET r1 == ThenName(T, ThenExpect(T, r, "let"))
        r2 == IF K(T, r1.p) = ":"
              THEN LET c == Then(r1, Bump(T, r1.p)) IN Then(c, TypeP(T, c.p))
              ELSE Res(Exp(r1.p, ":"), r1.c)
        r3 == ThenExpect(T, r2, "=")
        r4 == Then(r3, ExprP(T, r3.p))
        r5 == ThenExpect(T, r4, ";")
    IN  Res(r5.p, <<Node("ValueItem", p, r5.c)>>)

RECURSIVE CaseFields(_, _), TypeCases(_, _), Exposed(_, _)

CaseFields(T, r) ==
    IF K(T, r.p) = "rec"
    THEN LET b == Bump(T, r.p)
         IN  CaseFields(T, Res(b.p, r.c \o <<Node("RecField", r.p, b.c)>>))
    ELSE LET a == AtomType(T, Exp(r.p, "rec"))
         IN  IF a.c = <<>> THEN Res(a.p, r.c)
             ELSE CaseFields(T, Res(a.p, r.c \o <<Node("TypeField", r.p, a.c)>>))

TypeCase(T, p, optional) ==
    LET r1 == IF K(T, p) = "|" THEN Bump(T, p)
              ELSE IF optional THEN Res(Exp(p, "|"), <<>>)
              ELSE EmitError(T, Exp(p, "|"))
        r2 == CaseFields(T, ThenName(T, r1))
    IN  Res(r2.p, <<Node("TypeCase", p, r2.c)>>)

TypeCases(T, r) ==
    IF K(T, r.p) = "|" THEN TypeCases(T, Then(r, TypeCase(T, r.p, FALSE)))
    ELSE Res(Exp(r.p, "|"), r.c)

TypeItemP(T, p, r) ==
    LET r1 == ThenName(T, Then(r, Bump(T, r.p)))
        r2 == IF K(T, r1.p) = "NAME"
              THEN LET ps == NameList(T, Res(r1.p, <<>>))
                   IN  Res(ps.p, r1.c \o <<Node("TypeParams", r1.p, ps.c)>>)
              ELSE Res(Exp(r1.p, "NAME"), r1.c)
        r3 == Maybe(T, ThenExpect(T, r2, "="), "export")
        r4 == TypeCases(T, Then(r3, TypeCase(T, r3.p, TRUE)))
        r5 == ThenExpect(T, r4, ";")
    IN  Res(r5.p, <<Node("TypeItem", p, r5.c)>>)

\* names separated by commas, after the opening parenthesis
Exposed(T, r) ==
    IF K(T, r.p) = ")" THEN ThenExpect(T, r, ")")
    ELSE LET r1 == ThenName(T, Res(Exp(r.p, ")"), r.c))
         IN  IF K(T, r1.p) = "," THEN Exposed(T, Then(r1, Bump(T, r1.p)))
             ELSE ThenExpect(T, Res(Exp(r1.p, ","), r1.c), ")")

ImportItemP(T, p) ==
    LET r1 == Bump(T, p)
        r2 == IF K(T, r1.p) = "NAME" THEN Then(r1, NameNode(T, r1.p)) ELSE Res(Exp(r1.p, "NAME"), r1.c)
        r3 == IF K(T, r2.p) = "("
              THEN LET l == Exposed(T, Bump(T, r2.p))
                   IN  Res(l.p, r2.c \o <<Node("ExposedList", r2.p, l.c)>>)
              ELSE Res(Exp(r2.p, "("), r2.c)
        r4 == ThenExpect(T, r3, "from")
        r5 == ThenExpect(T, r4, "STR")
        r6 == ThenExpect(T, r5, ";")
    IN  Res(r6.p, <<Node("ImportItem", p, r6.c)>>)

\* Skips to something that looks like a start of an item
RECURSIVE SkipItem(_, _)
SkipItem(T, r) ==
    LET k == K(T, r.p)
    IN  IF k \in {"EOF", "export", "type"} \/ (k = "let" /\ T[r.p.i].bol) THEN r
        ELSE SkipItem(T, Then(r, Bump(T, r.p)))

RecoverItem(T, p) ==
    LET r1 == EmitError(T, p)
        r2 == SkipItem(T, Res(r1.p, <<>>))
    IN  Res(r2.p, r1.c \o <<Node("Error", r1.p, r2.c)>>)

ItemP(T, p0) ==
    LET p == Hint(p0, "definition")
        k == K(T, p)
    IN  CASE k = "export" ->
                LET r == Bump(T, p)
                    k2 == K(T, r.p)
                IN  IF k2 = "let" THEN ValueItemP(T, p, r)
                    ELSE IF k2 = "type" THEN TypeItemP(T, p, r)
                    ELSE LET q == RecoverItem(T, Exp(Exp(r.p, "let"), "type"))
                         IN  Res(q.p, <<Node("Error", p, r.c)>> \o q.c)
          [] k = "let" -> ValueItemP(T, p, Res(p, <<>>))
          [] k = "type" -> TypeItemP(T, p, Res(p, <<>>))
          [] k = "import" -> ImportItemP(T, p)
          [] OTHER -> RecoverItem(T, Exp(p, "import"))

(***************************************************************************)
(* One item that starts at token i, at position `start', of a source that  *)
(* ends at position `end': its elements, errors and the end of its span.   *)
(***************************************************************************)
ParseItem(T, i, start, end) ==
    LET r == IF i > Len(T) THEN Res(Init0(i, start), <<>>) ELSE ItemP(T, Init0(i, start))
    IN  [c |-> r.c, er |-> r.p.er, i |-> r.p.i, s |-> start,
         e |-> IF r.p.i > Len(T) THEN end ELSE r.p.pos]
=============================================================================
