------------------------------ MODULE Envelope ------------------------------
(* The form every answer to a request has.  C.text is the answer (bytes),    *)
(* C.errs the messages of the errors that were returned to the caller,       *)
(* C.form what is answered: "response", "data" (only the data was asked      *)
(* for), or "batch".  The machine reads the answer token by token with the   *)
(* stack of the objects and arrays it is inside of; every value has a role   *)
(* that says what it may be:                                                 *)
(*   batch    an array of responses                                          *)
(*   response an object with data, maybe errors and extensions               *)
(*   data     an object                                                      *)
(*   errors   a non-empty array of error objects, whose messages are, in     *)
(*            order, those of the returned errors                            *)
(*   path     an array of response names and indices                         *)
(*   locs     an array of objects with a line and a column, from 1 / 0       *)
(*   other    anything                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES C, m
L == INSTANCE Leaf

T == C.text
At(j) == IF j <= Len(T) THEN T[j] ELSE 0
Quote == 34
\* all names the form knows, as code points
NData == <<100, 97, 116, 97>>
NErrors == <<101, 114, 114, 111, 114, 115>>
NExt == <<101, 120, 116, 101, 110, 115, 105, 111, 110, 115>>
NMessage == <<109, 101, 115, 115, 97, 103, 101>>
NPath == <<112, 97, 116, 104>>
NLocs == <<108, 111, 99, 97, 116, 105, 111, 110, 115>>
NLine == <<108, 105, 110, 101>>
NColumn == <<99, 111, 108, 117, 109, 110>>

RECURSIVE SkipWs(_)
SkipWs(j) == IF At(j) \in {32, 9, 10, 13} THEN SkipWs(j + 1) ELSE j

(* the string whose first character is at j: <<characters, position after the closing quote>>, position 0: none *)
RECURSIVE StrFrom(_, _)
StrFrom(j, acc) ==
  IF j > Len(T) THEN <<acc, 0>>
  ELSE IF T[j] = Quote THEN <<acc, j + 1>>
  ELSE LET c == L!JsonAt(T, j) IN IF c[1] = -1 THEN <<acc, 0>> ELSE StrFrom(j + c[2], Append(acc, c[1]))
(* the characters of a Go string; what is no UTF-8 is one replacement character *)
RECURSIVE CharsFrom(_, _, _)
CharsFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == L!Utf8At(s, i) IN CharsFrom(s, i + c[2], Append(acc, c[1]))
\* runs of replacement characters may be written as any number of them
RECURSIVE Squash(_, _)
Squash(cs, acc) == IF cs = <<>> THEN acc
  ELSE IF Head(cs) = L!FFFD /\ acc # <<>> /\ acc[Len(acc)] = L!FFFD THEN Squash(Tail(cs), acc)
  ELSE Squash(Tail(cs), Append(acc, Head(cs)))
SameMessage(cs, s) == Squash(cs, <<>>) = Squash(CharsFrom(s, 1, <<>>), <<>>)

(* the number at j: position after it, 0: none *)
NumTo(j) ==
  LET i == IF At(j) = 45 THEN j + 1 ELSE j
      d == L!DigitsTo(T, i)
      fr == IF At(d) = 46 THEN L!DigitsTo(T, d + 1) ELSE d
      es == IF At(fr) \in {69, 101} THEN (IF At(fr + 1) \in {43, 45} THEN fr + 2 ELSE fr + 1) ELSE 0
      e == IF es = 0 THEN fr ELSE L!DigitsTo(T, es)
  IN IF d = i \/ (T[i] = 48 /\ d > i + 1) \/ (At(d) = 46 /\ fr = d + 1) \/ (es # 0 /\ e = es) THEN 0 ELSE e
WordTo(j) ==
  IF j + 3 <= Len(T) /\ SubSeq(T, j, j + 3) \in {<<116, 114, 117, 101>>, <<110, 117, 108, 108>>} THEN j + 4
  ELSE IF j + 4 <= Len(T) /\ SubSeq(T, j, j + 4) = <<102, 97, 108, 115, 101>> THEN j + 5 ELSE 0

KindAt(j) == CASE At(j) = 123 -> "object" [] At(j) = 91 -> "array" [] At(j) = Quote -> "string"
               [] At(j) \in {45} \cup 48..57 -> "number" [] At(j) \in {116, 102, 110} -> "word" [] OTHER -> "nothing"

(* what may be under a name of an object with a role; "" is nothing *)
RoleOf(role, name) ==
  CASE role = "response" -> (CASE name = NData -> "data" [] name = NErrors -> "errors" [] name = NExt -> "extensions" [] OTHER -> "")
    [] role = "error" -> (CASE name = NMessage -> "message" [] name = NPath -> "path" [] name = NLocs -> "locs" [] OTHER -> "")
    [] role = "loc" -> (CASE name = NLine -> "position" [] name = NColumn -> "position" [] OTHER -> "")
    [] OTHER -> "other"
ElemOf(role) == CASE role = "batch" -> "response" [] role = "errors" -> "error" [] role = "path" -> "step" [] role = "locs" -> "loc" [] OTHER -> "other"
KindsOf(role) ==
  CASE role \in {"response", "data", "extensions", "error", "loc"} -> {"object"}
    [] role \in {"batch", "errors", "path", "locs"} -> {"array"}
    [] role = "message" -> {"string"}
    [] role = "position" -> {"number"}
    [] role = "step" -> {"string", "number"}
    [] OTHER -> {"object", "array", "string", "number", "word"}
Needs(role) == CASE role = "response" -> {NData} [] role = "error" -> {NMessage} [] role = "loc" -> {NLine, NColumn} [] OTHER -> {}

\* a frame: k: object or array, role, want: what comes next, names: those that were seen, n: number of elements
Frame(k, role) == [k |-> k, role |-> role, want |-> IF k = "object" THEN "first" ELSE "element", names |-> {}, n |-> 0, as |-> ""]
InitM == [pc |-> "read", j |-> 1, st |-> <<>>, want |-> "value", nerr |-> 0, why |-> "", tokens |-> 0]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, f) == Append(Pop(s), f)
Bad(why) == m' = [m EXCEPT !.pc = "bad", !.why = why]
Go(j, st) == m' = [m EXCEPT !.j = j, !.st = st, !.tokens = @ + 1, !.pc = IF st = <<>> THEN "end" ELSE "read"]
GoErr(j, st) == m' = [m EXCEPT !.j = j, !.st = st, !.tokens = @ + 1, !.nerr = @ + 1]

\* after a value in the frame s
After(s) == IF s = <<>> THEN s ELSE SetTop(s, [Top(s) EXCEPT !.want = "separator", !.n = @ + 1])

\* a value with a role starts at j in the frames s
Value(role, j, s) ==
  LET k == KindAt(j) IN
  IF k \notin KindsOf(role) THEN Bad("the " \o role \o " is of another kind: " \o k)
  ELSE IF k \in {"object", "array"} THEN Go(j + 1, Append(s, Frame(k, role)))
  ELSE IF k = "string" THEN
    LET x == StrFrom(j + 1, <<>>) IN
    IF x[2] = 0 THEN Bad("no valid string")
    ELSE IF role # "message" THEN Go(x[2], After(s))
    ELSE IF m.nerr >= Len(C.errs) THEN Bad("an error that was not returned")
    ELSE IF ~SameMessage(x[1], C.errs[m.nerr + 1]) THEN Bad("the message is not that of the returned error")
    ELSE GoErr(x[2], After(s))
  ELSE IF k = "number" THEN
    LET e == NumTo(j) IN
    IF e = 0 THEN Bad("no valid number")
    ELSE IF role \in {"position", "step"} /\ \E i \in j..(e - 1) : ~L!Digit(T[i]) THEN Bad("a position that is no natural number")
    ELSE Go(e, After(s))
  ELSE LET e == WordTo(j) IN IF e = 0 THEN Bad("no valid value") ELSE Go(e, After(s))

Close(f, j) ==
  IF ~(Needs(f.role) \subseteq f.names) THEN Bad("incomplete " \o f.role)
  ELSE IF f.role = "errors" /\ f.n = 0 THEN Bad("empty errors")
  ELSE Go(j + 1, After(Pop(m.st)))

Read ==
  /\ m.pc = "read"
  /\ LET j == SkipWs(m.j) IN
     IF m.st = <<>> THEN Value(C.form, j, <<>>)
     ELSE LET f == Top(m.st) IN
       IF f.k = "array" THEN
         (IF f.want = "element" /\ f.n = 0 /\ At(j) = 93 THEN Close(f, j)
          ELSE IF f.want = "element" THEN Value(ElemOf(f.role), j, m.st)
          ELSE IF At(j) = 44 THEN Go(j + 1, SetTop(m.st, [f EXCEPT !.want = "element"]))
          ELSE IF At(j) = 93 THEN Close(f, j)
          ELSE Bad("no , or ]"))
       ELSE
         (IF f.want = "first" /\ At(j) = 125 THEN Close(f, j)
          ELSE IF f.want \in {"first", "name"} THEN
            (IF At(j) # Quote THEN Bad("no name")
             ELSE LET x == StrFrom(j + 1, <<>>) IN
               IF x[2] = 0 THEN Bad("no valid name")
               ELSE LET c == SkipWs(x[2]) as == RoleOf(f.role, x[1]) IN
                 IF At(c) # 58 THEN Bad("no :")
                 ELSE IF as = "" THEN Bad("unknown member of " \o f.role)
                 ELSE IF Needs(f.role) # {} /\ x[1] \in f.names THEN Bad("member twice")
                 ELSE Go(c + 1, SetTop(m.st, [f EXCEPT !.want = "value", !.as = as, !.names = IF Needs(f.role) # {} THEN @ \cup {x[1]} ELSE @])))
          ELSE IF f.want = "value" THEN Value(f.as, j, m.st)
          ELSE IF At(j) = 44 THEN Go(j + 1, SetTop(m.st, [f EXCEPT !.want = "name"]))
          ELSE IF At(j) = 125 THEN Close(f, j)
          ELSE Bad("no , or }"))

End ==
  /\ m.pc = "end"
  /\ IF SkipWs(m.j) <= Len(T) THEN Bad("more after the end")
     ELSE IF C.form # "data" /\ m.nerr # Len(C.errs) THEN Bad("a returned error is not in the response")
     ELSE m' = [m EXCEPT !.pc = "good"]

Step == Read \/ End
Decided == m.pc \in {"good", "bad"}

EnvInv ==
  /\ m.nerr <= Len(C.errs)
  /\ m.pc = "good" => m.st = <<>>
  /\ m.tokens <= Len(T)
=============================================================================
