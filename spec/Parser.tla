------------------------------- MODULE Parser -------------------------------
(* Which documents are accepted.  A lexer over bytes and a pushdown         *)
(* automaton over tokens: one step per token.  The automaton predicts with  *)
(* one token of lookahead and therefore stops at the first token that no    *)
(* valid document has at that place.                                        *)
(* C.text: the bytes of the document.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES C, m

-----------------------------------------------------------------------------
(* The grammar                                                               *)
Keywords == {"query", "mutation", "subscription", "fragment", "on", "true", "false", "null"}
NameLike == Keywords \cup {"name"}
Ops == {"query", "mutation", "subscription"}
ValueStart == NameLike \cup {"$", "int", "float", "string", "[", "{"}
Kinds == NameLike \cup {"$", "int", "float", "string", "[", "{", "]", "}", "(", ")", ":", "=", "!", "@", "..."}

No == [r |-> "no"]
\* not decided here: extensions of this implementation and parts of GraphQL that it does not know
Open == [r |-> "any"]
To(s) == [r |-> "ok", s |-> s]
Eps == To(<<>>)

\* what the non-terminal becomes when the next token is a k
Pred(nt, k) ==
  CASE nt = "Doc" -> IF k = "{" THEN To(<<"SelSet", "Doc">>)
                     ELSE IF k \in Ops THEN To(<<"OP", "OpName", "VarDefs", "Dirs", "SelSet", "Doc">>)
                     ELSE IF k = "fragment" THEN To(<<"fragment", "FRAGNAME", "on", "NAME", "FragDirs", "SelSet", "Doc">>)
                     ELSE IF k = "eof" THEN Eps ELSE No
    [] nt = "OpName" -> IF k \in NameLike THEN To(<<"NAME">>) ELSE Eps
    [] nt = "VarDefs" -> IF k = "(" THEN To(<<"(", "VarDef1", ")">>) ELSE Eps
    [] nt = "VarDef1" -> IF k = "$" THEN To(<<"VarDef", "VarDefN">>) ELSE IF k = ")" THEN Open ELSE No
    [] nt = "VarDefN" -> IF k = "$" THEN To(<<"VarDef", "VarDefN">>) ELSE Eps
    [] nt = "VarDef" -> To(<<"$", "NAME", ":", "Type", "Default", "VarDirs">>)
    [] nt = "Type" -> IF k \in NameLike THEN To(<<"NAME", "Bang">>) ELSE IF k = "[" THEN To(<<"[", "Type", "]", "Bang">>) ELSE No
    [] nt = "Bang" -> IF k = "!" THEN To(<<"!">>) ELSE Eps
    [] nt = "Default" -> IF k = "=" THEN To(<<"=", "Const">>) ELSE Eps
    [] nt \in {"VarDirs", "FragDirs"} -> IF k = "@" THEN Open ELSE Eps
    [] nt = "Dirs" -> IF k = "@" THEN To(<<"@", "NAME", "Args", "Dirs">>) ELSE Eps
    [] nt = "Args" -> IF k = "(" THEN To(<<"(", "Arg1", ")">>) ELSE Eps
    [] nt = "Arg1" -> IF k \in NameLike THEN To(<<"Arg", "ArgN">>) ELSE IF k = ")" THEN Open ELSE No
    [] nt = "ArgN" -> IF k \in NameLike THEN To(<<"Arg", "ArgN">>) ELSE Eps
    [] nt = "Arg" -> To(<<"NAME", ":", "Value">>)
    [] nt = "SelSet" -> To(<<"{", "Sel1", "}">>)
    [] nt = "Sel1" -> IF k \in NameLike \cup {"..."} THEN To(<<"Sel", "SelN">>) ELSE IF k = "}" THEN Open ELSE No
    [] nt = "SelN" -> IF k \in NameLike \cup {"..."} THEN To(<<"Sel", "SelN">>) ELSE Eps
    [] nt = "Sel" -> IF k = "..." THEN To(<<"...", "Spread">>) ELSE To(<<"NAME", "Alias", "FieldRest">>)
    [] nt = "Alias" -> IF k = ":" THEN To(<<":", "NAME">>) ELSE Eps
    [] nt = "FieldRest" -> IF k = "(" THEN To(<<"Args", "Dirs", "OptSel">>)
                           ELSE IF k = "@" THEN To(<<"Dirs", "Late", "OptSel">>) ELSE To(<<"OptSel">>)
    [] nt = "Late" -> IF k = "(" THEN Open ELSE Eps
    [] nt = "OptSel" -> IF k = "{" THEN To(<<"SelSet">>) ELSE Eps
    [] nt = "Spread" -> IF k = "on" THEN To(<<"on", "NAME", "Dirs", "SelSet">>)
                        ELSE IF k \in NameLike THEN To(<<"FRAGNAME", "Dirs">>)
                        ELSE IF k \in {"@", "{"} THEN To(<<"Dirs", "SelSet">>) ELSE No
    [] nt = "Value" -> IF k = "$" THEN To(<<"$", "NAME">>) ELSE IF k = "[" THEN To(<<"[", "ListN", "]">>)
                       ELSE IF k = "{" THEN To(<<"{", "ObjN", "}">>) ELSE IF k \in ValueStart THEN To(<<"LIT">>) ELSE No
    [] nt = "ListN" -> IF k \in ValueStart THEN To(<<"Value", "ListN">>) ELSE Eps
    [] nt = "ObjN" -> IF k \in NameLike THEN To(<<"NAME", ":", "Value", "ObjN">>) ELSE Eps
    [] nt = "Const" -> IF k = "$" THEN Open ELSE IF k = "[" THEN To(<<"[", "CListN", "]">>)
                       ELSE IF k = "{" THEN To(<<"{", "CObjN", "}">>) ELSE IF k \in ValueStart THEN To(<<"LIT">>) ELSE No
    [] nt = "CListN" -> IF k \in ValueStart THEN To(<<"Const", "CListN">>) ELSE Eps
    [] nt = "CObjN" -> IF k \in NameLike THEN To(<<"NAME", ":", "Const", "CObjN">>) ELSE Eps

NTs == {"Doc", "OpName", "VarDefs", "VarDef1", "VarDefN", "VarDef", "Type", "Bang", "Default", "VarDirs", "FragDirs", "Dirs", "Args", "Arg1", "ArgN", "Arg",
        "SelSet", "Sel1", "SelN", "Sel", "Alias", "FieldRest", "Late", "OptSel", "Spread", "Value", "ListN", "ObjN", "Const", "CListN", "CObjN"}
Matches(sym, k) ==
  CASE sym = "NAME" -> k \in NameLike
    [] sym = "FRAGNAME" -> k \in NameLike \ {"on"}
    [] sym = "OP" -> k \in Ops
    [] sym = "LIT" -> k \in NameLike \cup {"int", "float", "string"}
    [] OTHER -> sym = k

\* the stack (top first) after a token: [r |-> "ok", s], "no" or "any".  eof: "ok" with an empty stack when the text may end here
RECURSIVE Feed(_, _)
Feed(stack, k) ==
  IF stack = <<>> THEN (IF k = "eof" THEN Eps ELSE No)
  ELSE LET top == Head(stack) IN
       IF top \in NTs THEN
         LET p == Pred(top, k) IN IF p.r = "ok" THEN Feed(p.s \o Tail(stack), k) ELSE p
       ELSE IF Matches(top, k) THEN To(Tail(stack)) ELSE No

-----------------------------------------------------------------------------
(* The lexer.  Positions count from 1, Len(T) + 1 is the end.               *)
T == C.text
Ch(j) == IF j <= Len(T) THEN T[j] ELSE -1
IsDigit(x) == x \in 48..57
NameStart(x) == x \in 65..90 \/ x \in 97..122 \/ x = 95
NameCont(x) == NameStart(x) \/ IsDigit(x)
IsHex(x) == IsDigit(x) \/ x \in 65..70 \/ x \in 97..102

RECURSIVE LineEnd(_), Skip(_), NameEnd(_), DigitsEnd(_), StrScan(_), BlockScan(_)
LineEnd(j) == IF j > Len(T) \/ T[j] \in {10, 13} THEN j ELSE LineEnd(j + 1)
\* space, tab, line terminators, comma, comment
Skip(j) == IF j > Len(T) THEN j ELSE IF T[j] \in {32, 9, 10, 13, 44} THEN Skip(j + 1) ELSE IF T[j] = 35 THEN Skip(LineEnd(j)) ELSE j
NameEnd(j) == IF NameCont(Ch(j)) THEN NameEnd(j + 1) ELSE j
DigitsEnd(j) == IF IsDigit(Ch(j)) THEN DigitsEnd(j + 1) ELSE j

\* a token: kind, position behind it; bad: the position where it cannot be continued to a token (0: it is one)
Tok(k, e) == [k |-> k, e |-> e, bad |-> 0]
Bad(k, e) == [k |-> k, e |-> e, bad |-> e]

StrScan(j) ==
  IF j > Len(T) THEN Bad("string", j)
  ELSE IF T[j] = 34 THEN Tok("string", j + 1)
  ELSE IF T[j] \in {10, 13} THEN Bad("string", j)
  ELSE IF T[j] = 92 THEN
    (IF Ch(j + 1) = 117 THEN
       (IF j + 5 > Len(T) THEN Bad("string", Len(T) + 1)
        ELSE IF \A l \in 2..5 : IsHex(Ch(j + l)) THEN StrScan(j + 6)
        ELSE Bad("string", j + 6))
     ELSE IF Ch(j + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrScan(j + 2)
     ELSE Bad("string", j + 1))
  ELSE IF T[j] < 32 /\ T[j] # 9 THEN Tok("other", j)
  ELSE StrScan(j + 1)
Quotes(j) == Ch(j) = 34 /\ Ch(j + 1) = 34 /\ Ch(j + 2) = 34
BlockScan(j) ==
  IF j > Len(T) THEN Bad("string", j)
  ELSE IF Quotes(j) THEN Tok("string", j + 3)
  ELSE IF T[j] = 92 THEN (IF Quotes(j + 1) THEN BlockScan(j + 4) ELSE Tok("other", j))
  ELSE BlockScan(j + 1)

\* numbers in GraphQL's spelling; this implementation also takes +1, .5, 007 and 1_000
Behind(k, e) ==
  IF Ch(e) \in {95, 45, 43} THEN Tok("other", e)
  ELSE IF NameStart(Ch(e)) \/ Ch(e) = 46 THEN Bad(k, e) ELSE Tok(k, e)
ExpPart(e) == \* behind the e
  LET s == IF Ch(e) \in {43, 45} THEN e + 1 ELSE e d == DigitsEnd(s) IN
  IF Ch(s) = 95 THEN Tok("other", s) ELSE IF d = s THEN Bad("float", s) ELSE Behind("float", d)
NumLex(j) ==
  IF Ch(j) \in {43, 46} THEN Tok("other", j)
  ELSE LET s == IF Ch(j) = 45 THEN j + 1 ELSE j d == DigitsEnd(s) IN
    IF Ch(s) \in {46, 95} THEN Tok("other", s)
    ELSE IF d = s THEN Bad("int", s)
    ELSE IF Ch(s) = 48 /\ d > s + 1 THEN Tok("other", s)
    ELSE IF Ch(d) = 46 THEN
      LET d2 == DigitsEnd(d + 1) IN
      IF Ch(d + 1) = 95 THEN Tok("other", d)
      ELSE IF d2 = d + 1 THEN Bad("float", d2)
      ELSE IF Ch(d2) \in {69, 101} THEN ExpPart(d2 + 1) ELSE Behind("float", d2)
    ELSE IF Ch(d) \in {69, 101} THEN ExpPart(d + 1)
    ELSE Behind("int", d)

Word(s) == CASE s = <<113, 117, 101, 114, 121>> -> "query"
             [] s = <<109, 117, 116, 97, 116, 105, 111, 110>> -> "mutation"
             [] s = <<115, 117, 98, 115, 99, 114, 105, 112, 116, 105, 111, 110>> -> "subscription"
             [] s = <<102, 114, 97, 103, 109, 101, 110, 116>> -> "fragment"
             [] s = <<111, 110>> -> "on"
             [] s = <<116, 114, 117, 101>> -> "true"
             [] s = <<102, 97, 108, 115, 101>> -> "false"
             [] s = <<110, 117, 108, 108>> -> "null"
             [] OTHER -> "name"
Punct(x) == CASE x = 33 -> "!" [] x = 36 -> "$" [] x = 40 -> "(" [] x = 41 -> ")" [] x = 58 -> ":" [] x = 61 -> "="
              [] x = 64 -> "@" [] x = 91 -> "[" [] x = 93 -> "]" [] x = 123 -> "{" [] x = 125 -> "}" [] OTHER -> ""

\* other: not decided (names too long, extensions); bad: no token starts like this
Lex(j) ==
  LET x == Ch(j) IN
  IF x = -1 THEN Tok("eof", j)
  ELSE IF Punct(x) # "" THEN Tok(Punct(x), j + 1)
  ELSE IF NameStart(x) THEN LET e == NameEnd(j) IN IF e - j > 254 THEN Tok("other", e) ELSE Tok(Word(SubSeq(T, j, e - 1)), e)
  ELSE IF x = 34 THEN (IF Quotes(j) THEN BlockScan(j + 3) ELSE StrScan(j + 1))
  ELSE IF x = 46 /\ Ch(j + 1) = 46 THEN (IF Ch(j + 2) = 46 THEN Tok("...", j + 3) ELSE Bad("...", j + 2))
  ELSE IF x = 46 /\ ~IsDigit(Ch(j + 1)) THEN Bad("...", j + 1)
  ELSE IF IsDigit(x) \/ x \in {43, 45, 46} THEN NumLex(j)
  ELSE IF x = 0 \/ x >= 239 THEN Tok("other", j)
  ELSE Bad("bad", j)

-----------------------------------------------------------------------------
(* The machine: pos, stack, pc ("run", "acc", "rej", "any"), point: where    *)
(* the text can no longer be completed, n: tokens read                       *)
InitM == [pos |-> 1, stack |-> <<"Doc">>, pc |-> "run", point |-> 0, n |-> 0]
At == Skip(m.pos)
L == Lex(At)
\* a partial token counts as its kind
After == Feed(m.stack, L.k)
End(pc, point) == m' = [m EXCEPT !.pc = pc, !.point = point]

Shift == /\ m.pc = "run" /\ L.k \notin {"eof", "other"} /\ L.bad = 0 /\ After.r = "ok"
         /\ m' = [m EXCEPT !.pos = L.e, !.stack = After.s, !.n = @ + 1]
Accept == m.pc = "run" /\ L.k = "eof" /\ After.r = "ok" /\ End("acc", 0)
\* what the implementation may do with it is its own affair, as long as the token could stand here at all
Extension == m.pc = "run" /\ (L.k = "other" \/ After.r = "any") /\ End("any", 0)
UnexpectedEnd == m.pc = "run" /\ L.k = "eof" /\ After.r = "no" /\ End("rej", Len(T) + 1)
UnexpectedToken == /\ m.pc = "run" /\ L.k \notin {"eof", "other"} /\ After.r = "no"
                   /\ End("rej", IF L.k = "..." /\ L.bad # 0 THEN L.bad ELSE IF L.k \in NameLike \cup {"..."} THEN L.e - 1 ELSE At)     \* of a name any part may be the unexpected one, .5 is a number here
BrokenToken == m.pc = "run" /\ L.bad # 0 /\ After.r = "ok" /\ End("rej", L.bad)
Step == Shift \/ Accept \/ Extension \/ UnexpectedEnd \/ UnexpectedToken \/ BrokenToken

\* lines count from 1, columns from 0; \r\n is one line terminator
PosStep(a, x) == IF x = 10 THEN (IF a.cr THEN [a EXCEPT !.cr = FALSE] ELSE [l |-> a.l + 1, c |-> 0, cr |-> FALSE])
                 ELSE IF x = 13 THEN [l |-> a.l + 1, c |-> 0, cr |-> TRUE]
                 ELSE [l |-> a.l, c |-> a.c + 1, cr |-> FALSE]
PosOf(j) == FoldLeft(PosStep, [l |-> 1, c |-> 0, cr |-> FALSE], SubSeq(T, 1, j - 1))
Reached == {LET p == PosOf(j) IN <<p.l, p.c>> : j \in 1..(IF m.point > Len(T) THEN Len(T) + 1 ELSE m.point)}

ParserInv ==
  /\ m.pc = "run" => m.stack # <<>>
  /\ m.pc = "rej" => m.point >= m.pos /\ m.point <= Len(T) + 1
=============================================================================
