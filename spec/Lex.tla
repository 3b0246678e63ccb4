-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Lexical structure of tic: a source is a sequence of bytes, its tokens   *)
(* are contiguous byte ranges that tile the source.  A source is given     *)
(* twice: as a tuple of bytes (b) and as a string with one character per   *)
(* byte (t, latin-1), so that texts of tokens can be cut out directly.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

Keywords == {"import", "from", "export", "let", "match", "with", "end", "if",
             "then", "else", "type", "int", "bool", "string", "true", "false",
             "fold", "rec"}

\* Kinds of tokens in the order in which they are listed in messages
KindOrder == <<"import", "from", "type", "=", "|", ",", ".", "int", "string", "bool", "->",
               "rec", "(", ")", "export", "let", ":", ";", "match", "with", "end", "if",
               "then", "else", "true", "false", "NUM", "STR", "NAME", "HOLE", "\\", "fold",
               "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>", "ERR">>

Trivia == {"SP", "NL", "CM"}

KindText(k) ==
    CASE k = "NAME" -> "name"
      [] k = "HOLE" -> "hole"
      [] k = "NUM" -> "number"
      [] k = "STR" -> "string"
      [] k = "ERR" -> "bad token"
      [] OTHER -> "`" \o k \o "`"

IsDigit(c) == 48 <= c /\ c <= 57
IsLetter(c) == (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90) \/ c = 95
IsWord(c) == IsLetter(c) \/ IsDigit(c)

At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0

RECURSIVE WordEnd(_, _)
WordEnd(b, i) == IF i <= Len(b) /\ IsWord(b[i]) THEN WordEnd(b, i + 1) ELSE i

RECURSIVE SpaceEnd(_, _)
SpaceEnd(b, i) == IF i <= Len(b) /\ b[i] = 32 THEN SpaceEnd(b, i + 1) ELSE i

RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i <= Len(b) /\ b[i] # 10 THEN LineEnd(b, i + 1) ELSE i

\* first position of a newline, backslash, quote or the end of the source
RECURSIVE StringEnd(_, _)
StringEnd(b, i) ==
    IF i <= Len(b) /\ b[i] # 10 /\ b[i] # 92 /\ b[i] # 34 THEN StringEnd(b, i + 1) ELSE i

\* length of the character that starts with byte c
CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4

Punctuation(c, d) ==
    CASE c = 58 -> ":"   [] c = 43 -> "+"  [] c = 42 -> "*"  [] c = 47 -> "/"
      [] c = 37 -> "%"   [] c = 40 -> "("  [] c = 41 -> ")"  [] c = 92 -> "\\"
      [] c = 44 -> ","   [] c = 46 -> "."  [] c = 59 -> ";"
      [] c = 61 -> IF d = 61 THEN "==" ELSE "="
      [] c = 60 -> IF d = 61 THEN "<=" ELSE "<"
      [] c = 62 -> IF d = 61 THEN ">=" ELSE ">"
      [] c = 124 -> IF d = 62 THEN "|>" ELSE "|"
      [] c = 45 -> IF d = 62 THEN "->" ELSE "-"
      [] c = 33 -> IF d = 61 THEN "!=" ELSE "ERR"
      [] OTHER -> "ERR"

\* kind of the token that starts at i (1-based) and the position after it
Scan(b, t, i) ==
    LET c == b[i]
        d == At(b, i + 1)
    IN  IF IsLetter(c) THEN
            LET j == WordEnd(b, i)
                w == SubSeq(t, i, j - 1)
            IN  IF w \in Keywords THEN <<w, j>> ELSE <<"NAME", j>>
        ELSE IF c = 32 THEN <<"SP", SpaceEnd(b, i)>>
        ELSE IF c = 10 THEN <<"NL", i + 1>>
        ELSE IF c = 13 THEN IF d = 10 THEN <<"NL", i + 2>> ELSE <<"ERR", i + 1>>
        ELSE IF IsDigit(c) THEN <<"NUM", WordEnd(b, i)>>
        ELSE IF c = 45 /\ d = 45 THEN <<"CM", LineEnd(b, i)>>
        ELSE IF c = 34 THEN
            LET j == StringEnd(b, i + 1)
            IN  IF At(b, j) = 34 THEN <<"STR", j + 1>> ELSE <<"ERR", j>>
        ELSE IF c = 63 THEN
            LET j == WordEnd(b, i + 1)
            IN  IF j > i + 1 THEN <<"HOLE", j>> ELSE <<"ERR", j>>
        ELSE LET k == Punctuation(c, d)
             IN  IF k = "ERR" THEN <<k, i + CharLen(c)>> ELSE <<k, i + Len(k)>>

\* All tokens of a source; positions are offset by base
Lex(b, t, base) ==
    LET Step(acc, i) ==
            IF i < acc[1] THEN acc
            ELSE LET r == Scan(b, t, i)
                 IN  <<r[2], Append(acc[2], [k |-> r[1], s |-> base + i - 1, e |-> base + r[2] - 1,
                                             x |-> IF r[1] \in {"NAME", "HOLE", "NUM", "STR"}
                                                   THEN SubSeq(t, i, r[2] - 1) ELSE ""])>>
    IN  FoldLeftDomain(Step, <<1, <<>>>>, b)[2]

(***************************************************************************)
(* What the parser sees: tokens without trivia.  `tp' is the end of the    *)
(* trivia that belongs to the token (up to and including the first         *)
(* newline after it), `bol' tells if only a newline precedes the token.    *)
(***************************************************************************)
RECURSIVE TrailEnd(_, _, _)
TrailEnd(toks, j, e) ==
    IF j > Len(toks) \/ toks[j].k \notin Trivia THEN e
    ELSE IF toks[j].k = "NL" THEN toks[j].e
    ELSE TrailEnd(toks, j + 1, toks[j].e)

Proper(toks) ==
    LET Step(acc, j) ==
            IF toks[j].k \in Trivia THEN acc
            ELSE Append(acc, [k |-> toks[j].k, s |-> toks[j].s, e |-> toks[j].e, x |-> toks[j].x,
                              bol |-> (j = 1 \/ toks[j - 1].k = "NL"),
                              tp |-> TrailEnd(toks, j + 1, toks[j].e)])
    IN  FoldLeftDomain(Step, <<>>, toks)
=============================================================================
