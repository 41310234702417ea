------------------------------- MODULE LeafGen -------------------------------
(* All short texts over the bytes at which the rules of UTF-8 and of JSON    *)
(* change, to be written by the code; and checks of the specification of     *)
(* leaf values against independent definitions.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)

VARIABLES s, m
L == INSTANCE Leaf WITH C <- [vals |-> <<>>, texts |-> <<>>]

Edges == {0, 9, 10, 31, 32, 34, 47, 92, 97, 127, 128, 143, 144, 159, 160, 168, 191, 192, 193, 194, 223, 224, 225, 226, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Multi == {97, 128, 143, 144, 159, 160, 191, 224, 237, 239, 240, 244}
Alphabet == IF Conf = "edges" THEN Edges ELSE Multi

Init == s = <<>> /\ m = "open"
Add == m = "open" /\ Len(s) < Size /\ \E b \in Alphabet : s' = Append(s, b) /\ UNCHANGED m
Emit == m = "open" /\ PrintT("CASE " \o ToJson(s)) /\ m' = "out" /\ UNCHANGED s
Over == m = "out" /\ UNCHANGED <<s, m>>
Next == Add \/ Emit \/ Over
Spec == Init /\ [][Next]_<<s, m>>

\* the encoding of a code point, as it is defined
Encode(c) == IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111

\* a character that was read is the only scalar value of which the encoding stands there, and what was not read is none
Prefix(e) == Len(e) <= Len(s) /\ SubSeq(s, 1, Len(e)) = e
ReadRight ==
  s # <<>> =>
    LET r == L!Utf8At(s, 1) IN
    IF L!Valid(s, 1) THEN Scalar(r[1]) /\ Prefix(Encode(r[1])) /\ Len(Encode(r[1])) = r[2]
    ELSE r = <<65533, 1>>

\* independent arithmetic on small numbers
Dig(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>
Num(n, e) == [ok |-> TRUE, neg |-> FALSE, ds |-> Dig(n), e |-> e]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
ASSUME \A a \in {0, 1, 2, 7, 99, 100, 125, 999}, b \in {0, 1, 3, 99, 100, 101, 512, 998}, e \in -3..3, k \in -3..3 :
  L!CmpNum(Num(a, e), L!FromDigits(Dig(b), <<>>), k) =
  Sgn((a * Pow(10, IF e > 0 THEN e ELSE 0) * Pow(2, IF k < 0 THEN 0 - k ELSE 0)) - (b * Pow(2, IF k > 0 THEN k ELSE 0) * Pow(10, IF e < 0 THEN 0 - e ELSE 0)))
\* the calendar: every day is the one after the day before
DaysIn(y, mo) == IF mo = 2 THEN (IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
ASSUME L!Civil(0) = [y |-> 1970, mo |-> 1, d |-> 1]
ASSUME \A n \in -800..1600 : \A f \in {0, -719162, 2932000, 146097, -146097} :
  LET a == L!Civil(n + f) b == L!Civil(n + f + 1) IN
  b = IF a.d < DaysIn(a.y, a.mo) THEN [a EXCEPT !.d = @ + 1] ELSE IF a.mo < 12 THEN [a EXCEPT !.d = 1, !.mo = @ + 1] ELSE [y |-> a.y + 1, mo |-> 1, d |-> 1]

GenInv == ReadRight
=============================================================================
