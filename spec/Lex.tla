-------------------------------- MODULE Lex --------------------------------
(* Text -> tokens, as Trino's lexer defines them (longest match).              *)
(* A text is a STRING; a character is a STRING of length one.                  *)
(* A token is [t, v, u]:                                                       *)
(*   t  "w" word | "q" quoted identifier | "s" string | "us" unicode string     *)
(*      "b" binary | "i" integer | "d" decimal | "e" double | "op" operator     *)
(*      "di" digit identifier | "bq" back-quoted | "bad" unrecognized | "eof"   *)
(*   v  its value: the characters denoted (quotes removed, doubled quotes       *)
(*      undoubled) for t in {q, s, us}, its spelling otherwise                  *)
(*   u  the keyword / operator it is for the grammar, "" when it is neither     *)
EXTENDS Naturals, Sequences, Keywords, SequencesExt, TLC

Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])
RECURSIVE CatFrom(_, _)
CatFrom(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o CatFrom(ss, i + 1)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

LowerSeq == Chars("abcdefghijklmnopqrstuvwxyz")
UpperSeq == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DigitSeq == Chars("0123456789")
LowerSet == TLCEval({LowerSeq[i] : i \in 1..26})
UpperSet == TLCEval({UpperSeq[i] : i \in 1..26})
DigitSet == TLCEval({DigitSeq[i] : i \in 1..10})
LetterSet == TLCEval(LowerSet \cup UpperSet)
WordSet == TLCEval(LetterSet \cup DigitSet \cup {"_"})
WsSet == {" ", "\n", "\t", "\r"}
UpFcn == TLCEval([c \in LetterSet |-> IF c \in UpperSet THEN c
                              ELSE UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]])
LoFcn == TLCEval([c \in LetterSet |-> IF c \in LowerSet THEN c
                              ELSE LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]])
UpC(c) == IF c \in LetterSet THEN UpFcn[c] ELSE c
LoC(c) == IF c \in LetterSet THEN LoFcn[c] ELSE c
ToUpper(s) == Cat([i \in 1..Len(s) |-> UpC(SubSeq(s, i, i))])
ToLower(s) == Cat([i \in 1..Len(s) |-> LoC(SubSeq(s, i, i))])

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

(* first index >= i whose character is outside S *)
RECURSIVE Run(_, _, _)
Run(s, i, S) == IF i <= Len(s) /\ SubSeq(s, i, i) \in S THEN Run(s, i + 1, S) ELSE i

(* closing quote of a quoted token whose body starts at i; 0 when unterminated *)
RECURSIVE Close(_, _, _)
Close(s, i, q) ==
  IF i > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i) # q THEN Close(s, i + 1, q)
  ELSE IF At(s, i + 1) = q THEN Close(s, i + 2, q)
  ELSE i

(* the body s[i..j] with doubled quotes undoubled *)
RECURSIVE Undouble(_, _)
Undouble(s, q) ==
  LET RECURSIVE U(_)
      U(i) == IF i > Len(s) THEN ""
              ELSE IF SubSeq(s, i, i) = q /\ At(s, i + 1) = q
                   THEN q \o U(i + 2)
              ELSE SubSeq(s, i, i) \o U(i + 1)
  IN  U(1)

RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) THEN i
                 ELSE IF SubSeq(s, i, i) \in {"\n", "\r"} THEN i
                 ELSE LineEnd(s, i + 1)
RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) == IF i + 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + 1) = "*/" THEN i + 2
                    ELSE CommentEnd(s, i + 1)

Tok(t, v, u) == [t |-> t, v |-> v, u |-> u]
EOFTok == Tok("eof", "", "<EOF>")
Ops2 == {"<>", "!=", "<=", ">=", "||", "->", "=>"}
Ops1 == {"=", "<", ">", "+", "-", "*", "/", "%", "?", "(", ")", "[", "]", ",", ".", ":",
         "|", "^", "$", "{", "}", ";"}

(* end (exclusive) of an exponent at i, or 0 *)
ExpEnd(s, i) ==
  IF At(s, i) # "E" THEN 0
  ELSE LET j == IF At(s, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1
           k == Run(s, j, DigitSet)
       IN IF k > j THEN k ELSE 0

(* numeric token starting at i (a digit, or a dot followed by a digit) *)
NumTok(s, i) ==
  LET a  == Run(s, i, DigitSet)
      dot == At(s, a) = "."
      b  == IF dot THEN Run(s, a + 1, DigitSet) ELSE a
      x  == ExpEnd(s, b)
      w  == IF a > i THEN Run(s, i, WordSet) ELSE i
      e  == IF x > 0 THEN x ELSE b
      ty == IF x > 0 THEN "e" ELSE IF dot THEN "d" ELSE "i"
  IN  IF w > e THEN [tok |-> Tok("di", SubSeq(s, i, w - 1), ""), e |-> w]
      ELSE [tok |-> Tok(ty, SubSeq(s, i, e - 1), ""), e |-> e]

WordTok(s, i) ==
  LET j == Run(s, i, WordSet)
      w == SubSeq(s, i, j - 1)
  IN [tok |-> Tok("w", w, IF w \in KwDom THEN KwFcn[w] ELSE ""), e |-> j]

Quoted(s, i, t, q, off) ==     \* body starts at i + off
  LET j == Close(s, i + off, q)
  IN IF j = 0 THEN [tok |-> Tok("bad", At(s, i), ""), e |-> i + 1]
     ELSE [tok |-> Tok(t, Undouble(SubSeq(s, i + off, j - 1), q), ""), e |-> j + 1]

(* one lexical element at i: e = next index, tok.t = "" for hidden text *)
Hidden(e) == [tok |-> Tok("", "", ""), e |-> e]
Elem(s, i) ==
  LET c == SubSeq(s, i, i)
      d == At(s, i + 1)
  IN  IF c \in WsSet THEN Hidden(Run(s, i, WsSet))
      ELSE IF c = "'" THEN Quoted(s, i, "s", "'", 1)
      ELSE IF c = "\"" THEN Quoted(s, i, "q", "\"", 1)
      ELSE IF c = "`" THEN Quoted(s, i, "bq", "`", 1)
      ELSE IF c = "U" /\ d = "&" /\ At(s, i + 2) = "'" /\ Close(s, i + 3, "'") > 0
           THEN Quoted(s, i, "us", "'", 3)
      ELSE IF c = "X" /\ d = "'" /\ Close(s, i + 2, "'") > 0
           THEN Quoted(s, i, "b", "'", 2)
      ELSE IF c \in DigitSet \/ (c = "." /\ d \in DigitSet) THEN NumTok(s, i)
      ELSE IF c \in LetterSet \/ c = "_" THEN WordTok(s, i)
      ELSE IF c = "-" /\ d = "-" THEN Hidden(LineEnd(s, i))
      ELSE IF c = "/" /\ d = "*" /\ CommentEnd(s, i + 2) > 0 THEN Hidden(CommentEnd(s, i + 2))
      ELSE IF (c \o d) \in Ops2 THEN [tok |-> Tok("op", c \o d, c \o d), e |-> i + 2]
      ELSE IF c \in Ops1 THEN [tok |-> Tok("op", c, c), e |-> i + 1]
      ELSE [tok |-> Tok("bad", c, ""), e |-> i + 1]

RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET r == Elem(s, i)
       IN LexFrom(s, r.e, IF r.tok.t = "" THEN acc ELSE Append(acc, r.tok))

(* the tokens of a text, with the exact text of each *)
RECURSIVE RawFrom(_, _, _)
RawFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE LET r == Elem(s, i)
                           IN RawFrom(s, r.e, IF r.tok.t = "" THEN acc ELSE Append(acc, SubSeq(s, i, r.e - 1)))
Raw(s) == RawFrom(s, 1, <<>>)

Lex(s) == LexFrom(s, 1, <<>>)
=============================================================================
