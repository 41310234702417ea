-------------------------------- MODULE Args --------------------------------
(* How the arguments of a resolver come to be: literals, variables and      *)
(* variable defaults are bound to values of Go types, one argument after    *)
(* the other, field by field.  C is the case (never changed), m the machine. *)
(*                                                                           *)
(* C.fields: sequence of [alias, ty, args]; every resolver has arguments a   *)
(* and b of type ty and an argument other of type Int; args is a sequence    *)
(* of [n |-> name, v |-> literal].                                           *)
(* C.vars: [name, nest, tn, def, given]: a declaration of a list nesting and *)
(* a type name, a default literal and the given JSON value (kind "none" when *)
(* absent).  C.form: files are supported, C.bad: keys of which the lookup    *)
(* fails.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES C, m

-----------------------------------------------------------------------------
(* Natural numbers as digit sequences, most significant first                *)

RECURSIVE StripZ(_)
StripZ(ds) == IF ds = <<>> \/ Head(ds) # 0 THEN ds ELSE StripZ(Tail(ds))
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLe(Tail(a), Tail(b))
Le(a0, b0) == LET a == StripZ(a0) b == StripZ(b0) IN IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b)
\* 2 * ds
DoubleOf(ds) ==
  LET n == Len(ds)
      carry[j \in 1..(n + 1)] == IF j = n + 1 THEN 0 ELSE (2 * ds[j] + carry[j + 1]) \div 10
      dig == [j \in 1..n |-> (2 * ds[j] + carry[j + 1]) % 10]
  IN IF carry[1] = 0 THEN dig ELSE <<carry[1]>> \o dig
RECURSIVE PowOf(_)
PowOf(n) == IF n = 0 THEN <<1>> ELSE DoubleOf(PowOf(n - 1))
\* PowOf written out (ArgsGen checks that), TLC would compute it again and again
Pow2 ==
  [ p7 |-> <<1, 2, 8>>,
    p8 |-> <<2, 5, 6>>,
    p15 |-> <<3, 2, 7, 6, 8>>,
    p16 |-> <<6, 5, 5, 3, 6>>,
    p31 |-> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>,
    p32 |-> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>,
    p63 |-> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>,
    p64 |-> <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>> ]
P2(n) == CASE n = 7 -> Pow2.p7 [] n = 8 -> Pow2.p8 [] n = 15 -> Pow2.p15 [] n = 16 -> Pow2.p16 [] n = 31 -> Pow2.p31 [] n = 32 -> Pow2.p32 [] n = 63 -> Pow2.p63 [] n = 64 -> Pow2.p64
Lt(a, b) == Le(a, b) /\ StripZ(a) # StripZ(b)
RECURSIVE DigStr(_)
DigStr(ds) == IF ds = <<>> THEN "" ELSE ToString(Head(ds)) \o DigStr(Tail(ds))

IntTypes == [int8 |-> <<8, TRUE>>, int16 |-> <<16, TRUE>>, int32 |-> <<32, TRUE>>, int64 |-> <<64, TRUE>>, int |-> <<64, TRUE>>,
             uint8 |-> <<8, FALSE>>, uint16 |-> <<16, FALSE>>, uint32 |-> <<32, FALSE>>, uint64 |-> <<64, FALSE>>, uint |-> <<64, FALSE>>]
InRange(tn, neg, ds) ==
  LET b == IntTypes[tn][1] IN
  IF IntTypes[tn][2] THEN (IF neg THEN Le(ds, P2(b - 1)) ELSE Lt(ds, P2(b - 1)))
  ELSE ~neg /\ Lt(ds, P2(b))
IntTok(neg, ds) == LET s == StripZ(ds) IN "i:" \o (IF s = <<>> THEN "0" ELSE (IF neg THEN "-" ELSE "") \o DigStr(s))

RECURSIVE StripEnd(_)
StripEnd(ds) == IF ds = <<>> \/ ds[Len(ds)] # 0 THEN ds ELSE StripEnd(SubSeq(ds, 1, Len(ds) - 1))
\* digits * 10^e; normal form: no zeros at either end
FloatTok(neg, ds0, e) ==
  LET ds == StripZ(ds0) s == StripEnd(ds) IN
  IF s = <<>> THEN "f:0" ELSE "f:" \o (IF neg THEN "-" ELSE "") \o DigStr(s) \o "e" \o ToString(e + Len(ds) - Len(s))
\* decimal exponent of the first digit; far away from the limits only
Magnitude(ds0, e) == Len(StripZ(ds0)) + e
L == INSTANCE Leaf
\* A number near the limits or with more digits than a float has carries what it rounds to as a float32 and as a float64:
\* [over, bits, ds, e], over: it is too large; bits: of the number; ds * 10^e: its shortest decimal.  Both are verified here.
Hard(v) == "c32" \in DOMAIN v
NumOfV(v) == IF v.k = "int" THEN [ds |-> v.ds, e |-> 0] ELSE [ds |-> v.ds \o v.fs, e |-> v.e - Len(v.fs)]
Rounded(tn, v) ==
  LET c == IF tn = "float32" THEN v.c32 ELSE v.c64
      w == IF tn = "float32" THEN 32 ELSE 64
      n == NumOfV(v)
  IN IF c.over THEN Assert(L!Overflows(n, w), <<"not too large", v>>)
     ELSE /\ Assert(~L!Overflows(n, w) /\ Len(c.bits) = w /\ (\E j \in 2..(IF w = 32 THEN 9 ELSE 12) : c.bits[j] = 0), <<"too large", v>>)
          /\ Assert(L!RoundsTo(n, w, c.bits) /\ L!RoundsTo([ds |-> c.ds, e |-> c.e], w, c.bits), <<"rounds to another number", v>>)
FloatFits(tn, ds, e) == IF StripZ(ds) = <<>> THEN TRUE ELSE Magnitude(ds, e) <= (IF tn = "float32" THEN 38 ELSE 308)

-----------------------------------------------------------------------------
(* Text: a literal's source elements, and what they stand for                *)
EscOf == [b |-> 8, f |-> 12, n |-> 10, r |-> 13, t |-> 9, q |-> 34, s |-> 47, k |-> 92]  \* q " s / k \
CP(el) == IF el.k = "esc" THEN EscOf[el.e] ELSE el.c        \* cp: as it is, u: \uXXXX, pair: two \uXXXX (JSON)
Text(els) == [j \in DOMAIN els |-> CP(els[j])]
Digits(cps) == [j \in DOMAIN cps |-> cps[j] - 48]
IsDigits(cps) == cps # <<>> /\ \A j \in DOMAIN cps : cps[j] \in 48..57

\* the decimal number in a text of digits (small)
RECURSIVE NumOf(_)
NumOf(cps) == IF cps = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(cps, 1, Len(cps) - 1)) + cps[Len(cps)] - 48
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, mo) == IF mo = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
\* YYYY-MM-DDThh:mm:ss.mmmZ
IsTime(t) ==
  /\ Len(t) = 24
  /\ \A j \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19, 21, 22, 23} : t[j] \in 48..57
  /\ t[5] = 45 /\ t[8] = 45 /\ t[11] = 84 /\ t[14] = 58 /\ t[17] = 58 /\ t[20] = 46 /\ t[24] = 90
  /\ LET y == NumOf(SubSeq(t, 1, 4)) mo == NumOf(SubSeq(t, 6, 7)) d == NumOf(SubSeq(t, 9, 10)) IN
     mo \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, mo)
  /\ NumOf(SubSeq(t, 12, 13)) < 24 /\ NumOf(SubSeq(t, 15, 16)) < 60 /\ NumOf(SubSeq(t, 18, 19)) < 60

Enums == [ EnS |-> [NORTH |-> "north", SOUTH |-> "", B_2 |-> "B_2", true_1 |-> "x y"],
           EnI |-> [NEG |-> "-128", ZERO |-> "0", MAX |-> "127"],
           EnU |-> [LOW |-> "1", HIGH |-> "65535"] ]

-----------------------------------------------------------------------------
(* Types: [k, n, e, fs]                                                      *)
Prim(n) == [k |-> "prim", n |-> n]       \* Go's name of it
Ptr(t)  == [k |-> "ptr", e |-> t]
Sl(t)   == [k |-> "list", e |-> t]
ID(n)   == [k |-> "id", n |-> n]
En(n)   == [k |-> "enum", n |-> n]
Ob(n)   == [k |-> "obj", n |-> n]
Time    == [k |-> "time"]
File    == [k |-> "file"]

\* the fields of the input objects, in Go order
ObjFields(t) ==
  CASE t.n = "InA" -> << <<"x", Prim("int8")>>, <<"s", Prim("string")>>, <<"p", Ptr(Prim("string"))>>, <<"l", Sl(Prim("int"))>>,
                         <<"lpp", Sl(Ptr(Sl(Prim("int16"))))>>, <<"self", Ptr(Ob("InA"))>>, <<"b", Prim("bool")>>, <<"e", En("EnI")>>,
                         <<"t", Time>>, <<"f", File>>, <<"id", ID("uint8")>>, <<"KEEP", Prim("float64")>>, <<"renamed", En("EnS")>> >>
    [] t.n = "InB" -> << <<"n", Ob("InA")>>, <<"ls", Sl(Ob("InA"))>>, <<"m", Sl(Sl(Ptr(Prim("string"))))>>, <<"lf", Sl(File)>>, <<"q", Prim("uint64")>> >>
    [] OTHER -> t.fs      \* an unnamed struct says it itself

RECURSIVE ZeroT(_), CatZero(_, _)
CatZero(fs, j) == IF j > Len(fs) THEN <<>> ELSE ZeroT(fs[j][2]) \o CatZero(fs, j + 1)
ZeroT(t) ==
  CASE t.k \in {"ptr", "list", "file"} -> <<"nil">>
    [] t.k = "prim" -> (CASE t.n \in DOMAIN IntTypes -> <<"i:0">>
                          [] t.n \in {"float32", "float64"} -> <<"f:0">>
                          [] t.n = "bool" -> <<"b:F">>
                          [] t.n = "string" -> <<"s:" \o ToString(<<>>)>>)
    [] t.k = "id" -> IF t.n = "string" THEN <<"s:" \o ToString(<<>>)>> ELSE <<"i:0">>
    [] t.k = "enum" -> IF t.n = "EnS" THEN <<"e:">> ELSE <<"e:0">>
    [] t.k = "time" -> <<"t:zero">>
    [] t.k = "obj" -> <<"{">> \o CatZero(ObjFields(t), 1) \o <<"}">>

RECURSIVE DeclOf(_)
DeclOf(t) ==
  CASE t.k = "ptr" -> DeclOf(t.e)
    [] t.k = "list" -> LET d == DeclOf(t.e) IN [d EXCEPT !.nest = @ + 1]
    [] t.k = "prim" -> [nest |-> 0, tn |-> CASE t.n \in DOMAIN IntTypes -> "Int" [] t.n \in {"float32", "float64"} -> "Float"
                                             [] t.n = "bool" -> "Boolean" [] t.n = "string" -> "String"]
    [] t.k = "id" -> [nest |-> 0, tn |-> "ID"]
    [] t.k = "time" -> [nest |-> 0, tn |-> "Time"]
    [] t.k = "file" -> [nest |-> 0, tn |-> "File"]
    [] OTHER -> [nest |-> 0, tn |-> t.n]

-----------------------------------------------------------------------------
(* Binding a value to a type: the tokens of the Go value the resolver gets   *)
(* and the files that are looked up, or failure                              *)
No == [ok |-> FALSE, toks |-> <<>>, looks |-> <<>>]
Yes(tok) == [ok |-> TRUE, toks |-> <<tok>>, looks |-> <<>>]

RECURSIVE Bind(_, _, _), BindElems(_, _, _, _), BindObj(_, _, _, _)
VarIdx(name) == LET S0 == {j \in DOMAIN C.vars : C.vars[j].name = name} IN IF S0 = {} THEN 0 ELSE CHOOSE j \in S0 : TRUE

\* mode: lit, def (the default of a variable) or json (the given value of a variable)
Bind(t, v, mode) ==
  IF v.k = "var" THEN
    IF mode # "lit" \/ VarIdx(v.name) = 0 THEN No
    ELSE LET w == C.vars[VarIdx(v.name)] IN
         IF DeclOf(t) # [nest |-> w.nest, tn |-> w.tn] THEN No
         ELSE IF w.given.k # "none" THEN Bind(t, w.given, "json")
         ELSE IF w.def.k # "none" THEN Bind(t, w.def, "def")
         ELSE No
  ELSE IF v.k = "null" THEN [ok |-> TRUE, toks |-> ZeroT(t), looks |-> <<>>]
  ELSE CASE t.k = "ptr" -> LET r == Bind(t.e, v, mode) IN IF r.ok THEN [r EXCEPT !.toks = <<"&">> \o @] ELSE No
         [] t.k = "list" -> IF v.k # "list" THEN No
                            ELSE LET r == BindElems(t.e, v.xs, 1, mode) IN IF r.ok THEN [r EXCEPT !.toks = <<"[">> \o @ \o <<"]">>] ELSE No
         [] t.k = "obj" -> IF v.k # "obj" THEN No
                           ELSE LET fs == ObjFields(t) IN
                                IF \E j \in DOMAIN v.fs : \A l \in DOMAIN fs : fs[l][1] # v.fs[j].n THEN No
                                ELSE LET r == BindObj(fs, v.fs, 1, mode) IN
                                     IF r.ok THEN [r EXCEPT !.toks = <<"{">> \o @ \o <<"}">>] ELSE No
         [] t.k = "prim" /\ t.n \in DOMAIN IntTypes ->
              IF v.k = "int" /\ InRange(t.n, v.neg, v.ds) THEN Yes(IntTok(v.neg, v.ds)) ELSE No
         [] t.k = "prim" /\ t.n \in {"float32", "float64"} ->
              IF v.k \notin {"int", "float"} THEN No
              ELSE IF Hard(v) THEN LET c == IF t.n = "float32" THEN v.c32 ELSE v.c64 IN
                                   IF Rounded(t.n, v) /\ ~c.over THEN Yes(FloatTok(v.neg, c.ds, c.e)) ELSE No
              ELSE LET n == NumOfV(v) IN IF FloatFits(t.n, n.ds, n.e) THEN Yes(FloatTok(v.neg, n.ds, n.e)) ELSE No
         [] t.k = "prim" /\ t.n = "bool" -> IF v.k = "bool" THEN Yes("b:" \o v.b) ELSE No
         [] t.k = "prim" /\ t.n = "string" -> IF v.k = "str" THEN Yes("s:" \o ToString(Text(v.els))) ELSE No
         [] t.k = "enum" -> IF v.k = "enum" /\ v.name \in DOMAIN Enums[t.n] THEN Yes("e:" \o Enums[t.n][v.name]) ELSE No
         [] t.k = "id" ->
              IF v.k = "str" /\ t.n = "string" THEN Yes("s:" \o ToString(Text(v.els)))
              ELSE IF v.k = "str" THEN
                     LET cps == Text(v.els) neg == cps # <<>> /\ Head(cps) = 45 ds == IF neg THEN Tail(cps) ELSE cps IN
                     IF IsDigits(ds) /\ InRange(t.n, neg, Digits(ds)) THEN Yes(IntTok(neg, Digits(ds))) ELSE No
              ELSE IF v.k = "int" /\ mode # "json" /\ t.n # "string" /\ InRange(t.n, v.neg, v.ds) THEN Yes(IntTok(v.neg, v.ds))
              ELSE No
         [] t.k = "time" -> IF v.k = "str" /\ IsTime(Text(v.els)) THEN Yes("t:" \o ToString(Text(v.els))) ELSE No
         [] t.k = "file" -> IF v.k # "str" \/ ~C.form THEN No
                            ELSE LET key == ToString(Text(v.els)) IN
                                 IF \E j \in DOMAIN C.bad : C.bad[j] = key THEN No
                                 ELSE [ok |-> TRUE, toks |-> <<"file:" \o key>>, looks |-> <<key>>]
BindElems(t, xs, j, mode) ==
  IF j > Len(xs) THEN [ok |-> TRUE, toks |-> <<>>, looks |-> <<>>]
  ELSE LET a == Bind(t, xs[j], mode) IN
       IF ~a.ok THEN No
       ELSE LET r == BindElems(t, xs, j + 1, mode) IN
            IF r.ok THEN [ok |-> TRUE, toks |-> a.toks \o r.toks, looks |-> a.looks \o r.looks] ELSE No
\* in Go order; the lookups of an object are compared as a bag
BindObj(fs, vfs, j, mode) ==
  IF j > Len(fs) THEN [ok |-> TRUE, toks |-> <<>>, looks |-> <<>>]
  ELSE LET S0 == {l \in DOMAIN vfs : vfs[l].n = fs[j][1]}
           a == IF S0 = {} THEN [ok |-> TRUE, toks |-> ZeroT(fs[j][2]), looks |-> <<>>]
                ELSE Bind(fs[j][2], vfs[CHOOSE l \in S0 : TRUE].v, mode)
       IN IF ~a.ok THEN No
          ELSE LET r == BindObj(fs, vfs, j + 1, mode) IN
               IF r.ok THEN [ok |-> TRUE, toks |-> a.toks \o r.toks, looks |-> a.looks \o r.looks] ELSE No

-----------------------------------------------------------------------------
(* The machine                                                               *)
ArgNames == <<"a", "b", "other">>
ArgType(f, n) == IF n = "other" THEN Prim("int") ELSE f.ty

\* got: per field that ran <<tokens of a, tokens of b, tokens of other>>
InitM == [fi |-> 1, ai |-> 1, bound |-> <<ZeroT(C.fields[1].ty), ZeroT(C.fields[1].ty), <<"i:0">> >>,
          got |-> <<>>, looks |-> <<>>, failed |-> 0, pc |-> "args"]
F == C.fields[m.fi]
A == F.args[m.ai]
ArgPos(n) == IF \E j \in 1..3 : ArgNames[j] = n THEN CHOOSE j \in 1..3 : ArgNames[j] = n ELSE 0
AtArg == m.pc = "args" /\ m.ai <= Len(F.args)
Result == IF ArgPos(A.n) = 0 THEN No ELSE Bind(ArgType(F, A.n), A.v, "lit")

Bound(r) == m' = [m EXCEPT !.ai = @ + 1, !.bound[ArgPos(A.n)] = r.toks, !.looks = @ \o r.looks]
BindLiteral == /\ AtArg /\ A.v.k # "var"
               /\ LET r == Result IN r.ok /\ Bound(r)
BindVariable == /\ AtArg /\ A.v.k = "var"
                /\ LET r == Result IN r.ok /\ Bound(r)
\* the value cannot be what the type asks for: the resolver is not called and the request ends
Refuse == /\ AtArg /\ ~Result.ok
          /\ m' = [m EXCEPT !.failed = m.fi, !.pc = "done"]
Call == /\ m.pc = "args" /\ m.ai > Len(F.args)
        /\ LET last == m.fi = Len(C.fields)
               nt == IF last THEN Prim("int") ELSE C.fields[m.fi + 1].ty IN
           m' = [m EXCEPT !.got = Append(@, m.bound), !.fi = @ + 1, !.ai = 1,
                          !.bound = IF last THEN <<>> ELSE <<ZeroT(nt), ZeroT(nt), <<"i:0">> >>,
                          !.pc = IF last THEN "done" ELSE "args"]
Step == BindLiteral \/ BindVariable \/ Refuse \/ Call

ArgsInv ==
  /\ m.failed > 0 => m.pc = "done" /\ Len(m.got) = m.failed - 1
  /\ m.pc = "done" /\ m.failed = 0 => Len(m.got) = Len(C.fields)
=============================================================================
