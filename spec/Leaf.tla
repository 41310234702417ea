-------------------------------- MODULE Leaf --------------------------------
(* What leaf values of Go look like in the response.  C is the case: a       *)
(* sequence of values, each with the text (bytes) the response has for it.   *)
(* The machine reads a value and its text side by side and compares what     *)
(* they denote:                                                              *)
(*   strings: the bytes of the Go string as UTF-8 against the characters of  *)
(*     the JSON string, one character per step                               *)
(*   integers: the bits of the value against the JSON number, exactly        *)
(*   floats: IEEE 754 bits against the JSON number, which has to round to    *)
(*     the value at its width (exact arithmetic on numbers of any size)      *)
(*   times: the civil date and time (UTC, milliseconds) of an instant        *)
(*   enums: the name of a member that has the value, else null               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES C, m

-----------------------------------------------------------------------------
(* UTF-8                                                                     *)

FFFD == 65533
Cont(b) == b \in 128..191
\* the character that starts at position i: <<code point, bytes it has>>; <<FFFD, 1>> when there is none
Utf8At(s, i) ==
  LET b == s[i]
      at(k) == IF i + k <= Len(s) THEN s[i + k] ELSE 0
      bad == <<FFFD, 1>>
  IN
  IF b < 128 THEN <<b, 1>>
  ELSE IF b \in 194..223 THEN
    IF Cont(at(1)) THEN <<(b - 192) * 64 + (at(1) - 128), 2>> ELSE bad
  ELSE IF b \in 224..239 THEN
    LET lo == IF b = 224 THEN 160 ELSE 128
        hi == IF b = 237 THEN 159 ELSE 191
    IN IF at(1) \in lo..hi /\ Cont(at(2)) THEN <<(b - 224) * 4096 + (at(1) - 128) * 64 + (at(2) - 128), 3>> ELSE bad
  ELSE IF b \in 240..244 THEN
    LET lo == IF b = 240 THEN 144 ELSE 128
        hi == IF b = 244 THEN 143 ELSE 191
    IN IF at(1) \in lo..hi /\ Cont(at(2)) /\ Cont(at(3))
       THEN <<(b - 240) * 262144 + (at(1) - 128) * 4096 + (at(2) - 128) * 64 + (at(3) - 128), 4>> ELSE bad
  ELSE bad
\* is it there as such (and not because something is invalid)
Valid(s, i) == Utf8At(s, i)[1] # FFFD \/ Utf8At(s, i)[2] = 3
\* after the run of replaced characters at i
RECURSIVE SkipBad(_, _)
SkipBad(s, i) == IF i <= Len(s) /\ Utf8At(s, i)[1] = FFFD THEN SkipBad(s, i + Utf8At(s, i)[2]) ELSE i
RECURSIVE HasBad(_, _)
HasBad(s, i) == IF i > Len(s) \/ Utf8At(s, i)[1] # FFFD THEN FALSE ELSE Utf8At(s, i)[2] = 1 \/ HasBad(s, i + Utf8At(s, i)[2])

(* JSON strings                                                              *)
Hex(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
Hex4(t, j) == IF j + 3 > Len(t) \/ \E k \in 0..3 : Hex(t[j + k]) = -1 THEN -1
              ELSE Hex(t[j]) * 4096 + Hex(t[j + 1]) * 256 + Hex(t[j + 2]) * 16 + Hex(t[j + 3])
\* the character at position j of the text of a JSON string: <<code point, bytes>>, code point -1: not a JSON string
JsonAt(t, j) ==
  LET b == t[j]
      e == IF j < Len(t) THEN t[j + 1] ELSE 0
      no == <<-1, 1>>
  IN
  IF b < 32 THEN no
  ELSE IF b # 92 THEN (IF Valid(t, j) THEN Utf8At(t, j) ELSE no)
  ELSE CASE e = 34 -> <<34, 2>> [] e = 92 -> <<92, 2>> [] e = 47 -> <<47, 2>> [] e = 98 -> <<8, 2>> [] e = 102 -> <<12, 2>>
         [] e = 110 -> <<10, 2>> [] e = 114 -> <<13, 2>> [] e = 116 -> <<9, 2>>
         [] e = 117 ->
              LET u == Hex4(t, j + 2)
                  low == IF j + 7 <= Len(t) /\ t[j + 6] = 92 /\ t[j + 7] = 117 THEN Hex4(t, j + 8) ELSE -1
              IN IF u = -1 THEN no
                 ELSE IF u \in 55296..56319 THEN (IF low \in 56320..57343 THEN <<65536 + (u - 55296) * 1024 + (low - 56320), 12>> ELSE no)
                 ELSE IF u \in 56320..57343 THEN no ELSE <<u, 6>>
         [] OTHER -> no
RECURSIVE SkipJBad(_, _)
SkipJBad(t, j) == IF j <= Len(t) /\ t[j] # 34 /\ JsonAt(t, j)[1] = FFFD THEN SkipJBad(t, j + JsonAt(t, j)[2]) ELSE j

-----------------------------------------------------------------------------
(* Natural numbers of any size: limbs of base 10^5, least significant first   *)
Base == 100000
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
\* a * k + c, k <= 16384
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, k, c, acc) ==
  LET n == Len(acc) + 1 IN
  IF n > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET x == a[n] * k + c IN MulFrom(a, k, x \div Base, Append(acc, x % Base))
Mul(a, k, c) == MulFrom(a, k, c, <<>>)
P2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>[k + 1]
RECURSIVE MulPow2(_, _)
MulPow2(a, e) == IF e = 0 THEN a ELSE IF e >= 14 THEN MulPow2(Mul(a, P2(14), 0), e - 14) ELSE Mul(a, P2(e), 0)
Zeros(n) == [j \in 1..n |-> 0]
MulPow10(a, e) == IF a = <<>> THEN a ELSE Zeros(e \div 5) \o Mul(a, <<1, 10, 100, 1000, 10000>>[(e % 5) + 1], 0)
RECURSIVE FromDigits(_, _)     \* decimal digits, most significant first
FromDigits(ds, acc) == IF ds = <<>> THEN Trim(acc) ELSE FromDigits(Tail(ds), Mul(acc, 10, Head(ds)))
RECURSIVE FromBits(_, _)
FromBits(bs, acc) == IF bs = <<>> THEN Trim(acc) ELSE FromBits(Tail(bs), Mul(acc, 2, Head(bs)))
\* -1, 0 or 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, j) == IF j = 0 THEN 0 ELSE IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1) ELSE CmpFrom(a, b, j - 1)
Cmp(a0, b0) == LET a == Trim(a0) b == Trim(b0) IN
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE SubOne(_)             \* of a number that is not 0
SubOne(a) == IF a[1] > 0 THEN <<a[1] - 1>> \o Tail(a) ELSE <<Base - 1>> \o SubOne(Tail(a))

(* JSON numbers: [ok, neg, ds, e]: digits * 10^e                              *)
Digit(b) == b \in 48..57
RECURSIVE DigitsTo(_, _)
DigitsTo(t, j) == IF j <= Len(t) /\ Digit(t[j]) THEN DigitsTo(t, j + 1) ELSE j    \* the position after the digits at j
Part(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]
RECURSIVE NumOf(_)
NumOf(ds) == IF ds = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
At(t, j) == IF j <= Len(t) THEN t[j] ELSE 0
NoNum == [ok |-> FALSE, neg |-> FALSE, ds |-> <<>>, e |-> 0]
ParseNum(t) ==
  LET neg == At(t, 1) = 45
      i == IF neg THEN 2 ELSE 1
      i2 == DigitsTo(t, i)
      int == Part(t, i, i2)
      f == At(t, i2) = 46
      f2 == IF f THEN DigitsTo(t, i2 + 1) ELSE i2
      frac == IF f THEN Part(t, i2 + 1, f2) ELSE <<>>
      x == At(t, f2) \in {69, 101}
      sg == IF x /\ At(t, f2 + 1) \in {43, 45} THEN 1 ELSE 0
      x2 == IF x THEN DigitsTo(t, f2 + 1 + sg) ELSE f2
      exp == IF x THEN Part(t, f2 + 1 + sg, x2) ELSE <<>>
      en == NumOf(exp)
  IN IF int = <<>> \/ (Len(int) > 1 /\ int[1] = 0) \/ (f /\ frac = <<>>) \/ (x /\ (exp = <<>> \/ Len(exp) > 6)) \/ x2 # Len(t) + 1 THEN NoNum
     ELSE [ok |-> TRUE, neg |-> neg, ds |-> int \o frac, e |-> (IF sg = 1 /\ t[f2 + 1] = 45 THEN 0 - en ELSE en) - Len(frac)]

Max0(x) == IF x > 0 THEN x ELSE 0
\* compares digits * 10^e with n * 2^k
CmpNum(num, n, k) ==
  LET left == MulPow2(MulPow10(FromDigits(num.ds, <<>>), Max0(num.e)), Max0(0 - k))
      right == MulPow10(MulPow2(n, Max0(k)), Max0(0 - num.e))
  IN Cmp(left, right)

\* two's complement
Flip(bs) == [j \in DOMAIN bs |-> 1 - bs[j]]
IntDiff(v, t) ==
  LET num == ParseNum(t)
      neg == v.signed /\ v.bits[1] = 1
      mag == IF neg THEN Mul(FromBits(Flip(v.bits), <<>>), 1, 1) ELSE FromBits(v.bits, <<>>)
  IN IF ~num.ok THEN "not a number" ELSE
     IF CmpNum(num, mag, 0) # 0 THEN "another integer" ELSE
     IF Trim(mag) # <<>> /\ num.neg # neg THEN "sign" ELSE ""

\* digits * 10^e rounds to the (finite) number of these bits: it lies between the halfway points to the neighbours, of
\* which the even one takes a number halfway
RoundsTo(num, w, bits) ==
  LET eb == IF w = 32 THEN 8 ELSE 11
      ebits == SubSeq(bits, 2, eb + 1)
      mbits == SubSeq(bits, eb + 2, w)
      bias == IF w = 32 THEN 127 ELSE 1023
      e0 == LET r[j \in 0..eb] == IF j = 0 THEN 0 ELSE 2 * r[j - 1] + ebits[j] IN r[eb]
      sub == e0 = 0
      mant == FromBits(IF sub THEN mbits ELSE <<1>> \o mbits, <<>>)
      e == (IF sub THEN 1 ELSE e0) - bias - (w - 1 - eb)
      even == bits[w] = 0
      narrow == ~sub /\ e0 > 1 /\ \A j \in DOMAIN mbits : mbits[j] = 0     \* the neighbour below is nearer
      up == Mul(mant, 4, 2)                                                  \* quarters of the last place
      cu == CmpNum(num, up, e - 2)
  IN IF mant = <<>> THEN cu # 1
     ELSE LET cl == CmpNum(num, Mul(SubOne(mant), 4, IF narrow THEN 3 ELSE 2), e - 2)
          IN cu # 1 /\ cl # -1 /\ (even \/ (cu # 0 /\ cl # 0))
\* too large: halfway to the number after the largest one, or more
Overflows(num, w) == CmpNum(num, FromBits([j \in 1..(IF w = 32 THEN 25 ELSE 54) |-> 1], <<>>), IF w = 32 THEN 103 ELSE 970) # -1

FloatDiff(v, t) ==
  LET num == ParseNum(t)
      zero == \A j \in 2..v.w : v.bits[j] = 0
  IN IF ~num.ok THEN "not a number" ELSE
     IF zero THEN (IF \A j \in DOMAIN num.ds : num.ds[j] = 0 THEN "" ELSE "another number") ELSE
     IF num.neg # (v.bits[1] = 1) THEN "sign" ELSE
     IF ~RoundsTo(num, v.w, v.bits) THEN "another number" ELSE ""

-----------------------------------------------------------------------------
(* Times: days since 1970-01-01, second of the day, nanoseconds               *)
Civil(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      mo == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF mo <= 2 THEN 1 ELSE 0), mo |-> mo, d |-> d]
RECURSIVE Pad(_, _)
Pad(x, n) == IF n = 0 THEN <<>> ELSE Append(Pad(x \div 10, n - 1), 48 + (x % 10))
\* "YYYY-MM-DDThh:mm:ss.mmmZ"
TimeText(v) ==
  LET c == Civil(v.days) IN
  <<34>> \o Pad(c.y, 4) \o <<45>> \o Pad(c.mo, 2) \o <<45>> \o Pad(c.d, 2) \o <<84>>
  \o Pad(v.secs \div 3600, 2) \o <<58>> \o Pad((v.secs \div 60) % 60, 2) \o <<58>> \o Pad(v.secs % 60, 2)
  \o <<46>> \o Pad(v.ns \div 1000000, 3) \o <<90, 34>>

Null == <<110, 117, 108, 108>>
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
Quoted(t) == Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34
Inner(t) == SubSeq(t, 2, Len(t) - 1)

\* what is wrong with the text of a value that is not a string
OtherDiff(v, t) ==
  CASE v.k = "null" -> IF t = Null THEN "" ELSE "not null"
    [] v.k = "bool" -> IF t = (IF v.b THEN TrueText ELSE FalseText) THEN "" ELSE "another boolean"
    [] v.k = "int" -> IntDiff(v, t)
    [] v.k = "idint" -> IF ~Quoted(t) THEN "an ID that is not a string" ELSE IntDiff(v, Inner(t))
    [] v.k = "float" -> FloatDiff(v, t)
    [] v.k = "time" -> IF t = TimeText(v) THEN "" ELSE "another time"
    [] v.k = "enum" -> IF v.names = <<>> THEN (IF t = Null THEN "" ELSE "a member for a value that is not registered")
                       ELSE IF \E j \in DOMAIN v.names : t = <<34>> \o v.names[j] \o <<34>> THEN "" ELSE "another member"

-----------------------------------------------------------------------------
(* The machine: value m.v, position m.i in the Go string, m.j in the text     *)
InitM == [pc |-> "value", v |-> 1, i |-> 1, j |-> 1, bad |-> ""]
V == C.vals[m.v]
T == C.texts[m.v]
Fin == [m EXCEPT !.pc = IF m.v = Len(C.vals) THEN "done" ELSE "value", !.v = IF m.v = Len(C.vals) THEN @ ELSE @ + 1]
Fail(d) == [m EXCEPT !.pc = "done", !.bad = d]
Other ==
  /\ m.pc = "value" /\ V.k # "str"
  /\ LET d == OtherDiff(V, T) IN m' = IF d = "" THEN Fin ELSE Fail(d)
Open ==
  /\ m.pc = "value" /\ V.k = "str"
  /\ m' = IF Len(T) >= 2 /\ T[1] = 34 THEN [m EXCEPT !.pc = "text", !.i = 1, !.j = 2] ELSE Fail("not a string")
AtEnd == m.j <= Len(T) /\ T[m.j] = 34
\* the next character of both
Char ==
  /\ m.pc = "text" /\ m.i <= Len(V.b)
  /\ LET c == Utf8At(V.b, m.i)
         g == IF m.j > Len(T) \/ AtEnd THEN <<-1, 0>> ELSE JsonAt(T, m.j)
     IN m' = IF g[1] # c[1] THEN Fail(IF g[2] = 0 THEN "the text is cut off" ELSE IF g[1] = -1 THEN "not a JSON string" ELSE "another character")
             ELSE IF c[1] = FFFD /\ HasBad(V.b, m.i) THEN [m EXCEPT !.i = SkipBad(V.b, @), !.j = SkipJBad(T, @)]
             ELSE [m EXCEPT !.i = @ + c[2], !.j = @ + g[2]]
Close ==
  /\ m.pc = "text" /\ m.i > Len(V.b)
  /\ m' = IF m.j = Len(T) /\ AtEnd THEN Fin ELSE Fail("more text than the value has")

Step == Other \/ Open \/ Char \/ Close

LeafInv ==
  /\ m.v \in 1..Len(C.vals)
  /\ m.pc = "text" => m.i \in 1..(Len(V.b) + 1) /\ m.j >= 2
=============================================================================
