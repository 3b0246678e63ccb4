------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Parts of syntax nodes.  A part that is missing from a (broken) source   *)
(* is Nil.  All later phases look at syntax only through these operators,  *)
(* so they are defined for broken sources too.                             *)
(***************************************************************************)
EXTENDS Parse

Nil == [n |-> "nil"]
Present(x) == x.n # "nil"

ExprNodes == {"NameExpr", "NsName", "Apply", "Binary", "Let", "Match", "If", "Bool",
              "Number", "String", "Lambda", "Paren", "Hole"}
TypeNodes == {"IntType", "BoolType", "StringType", "NamedType", "FnType", "ParenType", "ErrType"}
ItemNodes == {"ImportItem", "TypeItem", "ValueItem"}

Kids(x, kinds) == SelectSeq(x.c, LAMBDA y: y.n \in kinds)

\* i-th child that is of one of the kinds
RECURSIVE NthKid(_, _, _, _)
NthKid(c, j, kinds, i) ==
    IF j > Len(c) THEN Nil
    ELSE IF c[j].n \in kinds
         THEN IF i = 1 THEN c[j] ELSE NthKid(c, j + 1, kinds, i - 1)
         ELSE NthKid(c, j + 1, kinds, i)

Kid(x, kinds, i) == NthKid(x.c, 1, kinds, i)

RECURSIVE TokenFrom(_, _, _)
TokenFrom(c, j, k) ==
    IF j > Len(c) THEN Nil
    ELSE IF c[j].n = "TOK" /\ c[j].k = k THEN c[j] ELSE TokenFrom(c, j + 1, k)

Token(x, k) == TokenFrom(x.c, 1, k)
HasToken(x, k) == Present(Token(x, k))

ExprKid(x, i) == Kid(x, ExprNodes, i)
TypeKid(x, i) == Kid(x, TypeNodes, i)
NameKid(x, i) == Kid(x, {"Name"}, i)

Text(name) == name.c[1].x
Pos(name) == name.c[1].s
Span(x) == <<x.s, x.e>>

\* names that may be qualified: module (or Nil) and name
Qualifier(x) == IF HasToken(x, ".") THEN NameKid(x, 1) ELSE Nil
Qualified(x) == IF HasToken(x, ".") THEN NameKid(x, 2) ELSE NameKid(x, 1)

Operator(x) == LET o == Kid(x, {"BinaryOp"}, 1) IN IF Present(o) THEN o.c[1].k ELSE "none"

CaseVars(x) == LET v == Kid(x, {"MatchVars"}, 1) IN IF Present(v) THEN Kids(v, {"Name"}) ELSE <<>>
Params(x) == LET v == Kid(x, {"TypeParams"}, 1) IN IF Present(v) THEN Kids(v, {"Name"}) ELSE <<>>
Fields(x) == Kids(x, {"RecField", "TypeField"})

\* position of the `=' among the elements of a type item
EqualsAt(x) ==
    LET J == {j \in 1..Len(x.c) : x.c[j].n = "TOK" /\ x.c[j].k = "="}
    IN  IF J = {} THEN Len(x.c) + 1 ELSE CHOOSE j \in J : \A i \in J : j <= i
IsExport(x, j) == x.c[j].n = "TOK" /\ x.c[j].k = "export"
TypeExported(x) == \E j \in 1..(EqualsAt(x) - 1) : IsExport(x, j)
CasesExported(x) == \E j \in EqualsAt(x)..Len(x.c) : IsExport(x, j)

RECURSIVE FirstItem(_, _)
FirstItem(c, j) ==
    IF j > Len(c) THEN Nil ELSE IF c[j].n \in ItemNodes THEN c[j] ELSE FirstItem(c, j + 1)

\* nodes below the given elements that are of one of the kinds, in source order
RECURSIVE Descendants(_, _, _)
Descendants(c, j, kinds) ==
    IF j > Len(c) THEN <<>>
    ELSE IF c[j].n = "TOK" THEN Descendants(c, j + 1, kinds)
    ELSE (IF c[j].n \in kinds THEN <<c[j]>> ELSE <<>>)
         \o Descendants(c[j].c, 1, kinds) \o Descendants(c, j + 1, kinds)

\* unquoted text of a string token
Unquote(x) == SubSeq(x, 2, Len(x) - 1)
=============================================================================
