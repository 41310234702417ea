------------------------------- MODULE ArgsGen -------------------------------
(* All combinations of a type, a representative value and the way it is      *)
(* given.  Every combination is run by the machine of Args, checked against  *)
(* the invariants below and printed, so that it can be replayed on the code. *)
(* CONF: lit, var, file.  SIZE: 1 single wrappers, 2 pairs of wrappers.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c, b, m
A == INSTANCE Args WITH C <- c
Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)

-----------------------------------------------------------------------------
None == [k |-> "none"]
Null == [k |-> "null"]
I(neg, ds) == [k |-> "int", neg |-> neg, ds |-> ds]
Fl(neg, ds, fs, e) == [k |-> "float", neg |-> neg, ds |-> ds, fs |-> fs, e |-> e, hase |-> (e # 0)]
St(els) == [k |-> "str", els |-> els]
Raw(cps) == St([j \in DOMAIN cps |-> [k |-> "cp", c |-> cps[j]]])
Bo(x) == [k |-> "bool", b |-> x]
EnV(x) == [k |-> "enum", name |-> x]
Li(xs) == [k |-> "list", xs |-> xs]
Obj(fs) == [k |-> "obj", fs |-> fs]
Fi(n, v) == [n |-> n, v |-> v]
Var(n) == [k |-> "var", name |-> n]

Inc(ds) == \* ds + 1; only for digits that do not end in 9
  [ds EXCEPT ![Len(ds)] = @ + 1]
Dec(ds) == \* a power of two minus one
  [ds EXCEPT ![Len(ds)] = @ - 1]

Leaves == {A!Prim(n) : n \in DOMAIN A!IntTypes \cup {"float32", "float64", "bool", "string"}}
          \cup {A!En("EnS"), A!En("EnI"), A!En("EnU"), A!ID("string"), A!ID("int"), A!ID("uint8"), A!Time, A!Ob("InA"), A!Ob("InB")}
Anon == [k |-> "obj", n |-> "", fs |-> << <<"a", A!Prim("int8")>>, <<"b", A!Sl(A!Prim("string"))>> >>]
FileAnon == [k |-> "obj", n |-> "", fs |-> << <<"a", A!File>>, <<"b", A!Sl(A!File)>>, <<"c", A!Prim("int")>> >>]

Wrap1(t) == {A!Sl(t)} \cup (IF t.k = "file" THEN {} ELSE {A!Ptr(t)})
\* the ID tag reaches through pointers only
NoList(t) == t.k # "id"
WrapsOf(t) == IF NoList(t) THEN Wrap1(t) ELSE {A!Ptr(t)}
Wraps(t) == {t} \cup WrapsOf(t)
             \cup (IF Size < 2 THEN {} ELSE UNION {IF u.k = "ptr" /\ ~NoList(t) THEN {A!Ptr(u)} ELSE Wrap1(u) : u \in WrapsOf(t)})

Types == CASE Conf = "lit" -> UNION {Wraps(t) : t \in Leaves \cup {A!File, Anon}}
           [] Conf = "var" -> UNION {Wraps(t) : t \in Leaves \cup {A!File}}
           [] Conf = "file" -> UNION {Wraps(t) : t \in {A!File, A!Ob("InA"), A!Ob("InB"), FileAnon}}

RECURSIVE Base(_)
Base(t) == IF t.k \in {"ptr", "list"} THEN Base(t.e) ELSE t
Nullable(t) == t.k \in {"ptr", "list", "file"}

TimeText == <<50, 48, 50, 52, 45, 48, 50, 45, 50, 57, 84, 50, 51, 58, 53, 57, 58, 53, 57, 46, 57, 57, 57, 90>>   \* 2024-02-29T23:59:59.999Z
BadDay  == [TimeText EXCEPT ![4] = 51]          \* 2023-02-29
BadHour == [TimeText EXCEPT ![13] = 52]         \* hour 24

\* numbers at the limits and halfway (see Args!Rounded)
HardFloats == {
  [k |-> "int", neg |-> FALSE, ds |-> <<1, 6, 7, 7, 7, 2, 1, 7>>, c32 |-> [over |-> FALSE, bits |-> <<0, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<1, 6, 7, 7, 7, 2, 1, 6>>, e |-> 0],
    c64 |-> [over |-> FALSE, bits |-> <<0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<1, 6, 7, 7, 7, 2, 1, 7>>, e |-> 0]],
  [k |-> "int", neg |-> FALSE, ds |-> <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, c32 |-> [over |-> FALSE, bits |-> <<0, 1, 1, 0, 0, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0>>, ds |-> <<1>>, e |-> 20],
    c64 |-> [over |-> FALSE, bits |-> <<0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, ds |-> <<1>>, e |-> 20]],
  [k |-> "int", neg |-> FALSE, ds |-> <<3, 4, 0, 2, 8, 2, 3, 5, 6, 7, 7, 9, 7, 3, 3, 6, 6, 1, 6, 3, 7, 5, 3, 9, 3, 9, 5, 4, 5, 8, 1, 4, 2, 5, 6, 8, 4, 4, 8>>, c32 |-> [over |-> TRUE, bits |-> <<>>, ds |-> <<>>, e |-> 0],
    c64 |-> [over |-> FALSE, bits |-> <<0, 1, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<3, 4, 0, 2, 8, 2, 3, 5, 6, 7, 7, 9, 7, 3, 3, 6, 6>>, e |-> 22]],
  [k |-> "int", neg |-> FALSE, ds |-> <<3, 4, 0, 2, 8, 2, 3, 5, 6, 7, 7, 9, 7, 3, 3, 6, 6, 1, 6, 3, 7, 5, 3, 9, 3, 9, 5, 4, 5, 8, 1, 4, 2, 5, 6, 8, 4, 4, 7>>, c32 |-> [over |-> FALSE, bits |-> <<0, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>, ds |-> <<3, 4, 0, 2, 8, 2, 3, 5>>, e |-> 31],
    c64 |-> [over |-> FALSE, bits |-> <<0, 1, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<3, 4, 0, 2, 8, 2, 3, 5, 6, 7, 7, 9, 7, 3, 3, 6, 6>>, e |-> 22]],
  [k |-> "float", neg |-> FALSE, ds |-> <<1>>, fs |-> <<0, 0, 0, 0, 0, 0, 0, 5, 9, 6, 0, 4, 6, 4, 4, 7, 7, 5, 3, 9, 0, 6, 2, 6>>, e |-> 0, hase |-> FALSE, c32 |-> [over |-> FALSE, bits |-> <<0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, ds |-> <<1, 0, 0, 0, 0, 0, 0, 1>>, e |-> -7],
    c64 |-> [over |-> FALSE, bits |-> <<0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<1, 0, 0, 0, 0, 0, 0, 0, 5, 9, 6, 0, 4, 6, 4, 4, 8>>, e |-> -16]],
  [k |-> "float", neg |-> TRUE, ds |-> <<1>>, fs |-> <<0, 0, 0, 0, 0, 0, 0, 5, 9, 6, 0, 4, 6, 4, 4, 7, 7, 5, 3, 9, 0, 6, 2, 5>>, e |-> 0, hase |-> FALSE, c32 |-> [over |-> FALSE, bits |-> <<0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<1>>, e |-> 0],
    c64 |-> [over |-> FALSE, bits |-> <<0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, ds |-> <<1, 0, 0, 0, 0, 0, 0, 0, 5, 9, 6, 0, 4, 6, 4, 4, 8>>, e |-> -16]] }

\* good and bad values of a leaf type; json: the bad ones must also be bad as JSON
LeafVals(t, json) ==
  CASE t.k = "prim" /\ t.n \in DOMAIN A!IntTypes ->
         LET bits == A!IntTypes[t.n][1] s == A!IntTypes[t.n][2] p == A!P2(IF s THEN bits - 1 ELSE bits) IN
         {I(FALSE, <<0>>), I(FALSE, <<7>>), I(FALSE, Dec(p)), I(FALSE, p), I(TRUE, <<1>>), I(FALSE, Inc(p) \o <<0>>),
          Fl(FALSE, <<1>>, <<0>>, 0), Bo("T"), Raw(<<49>>), Obj(<<>>)}
         \cup (IF s THEN {I(TRUE, p), I(TRUE, Inc(p))} ELSE {}) \cup (IF json THEN {} ELSE {EnV("NORTH")})
    [] t.k = "prim" /\ t.n \in {"float32", "float64"} ->
         {I(FALSE, <<0>>), I(TRUE, <<1, 2, 3>>), Fl(FALSE, <<0>>, <<1, 2, 5>>, 0), Fl(TRUE, <<1>>, <<5>>, 10), Fl(FALSE, <<4>>, <<7>>, -5),
          Fl(FALSE, <<9>>, <<>>, 400), Bo("T"), Raw(<<49>>), Obj(<<>>)}
         \cup HardFloats
    [] t.k = "prim" /\ t.n = "bool" -> {Bo("T"), Bo("F"), Raw(<<116, 114, 117, 101>>), Obj(<<>>), Fl(FALSE, <<1>>, <<5>>, 0)}
    [] t.k = "prim" /\ t.n = "string" ->
         {Raw(<<>>), Raw(<<97, 32, 35, 98>>), St(<<[k |-> "esc", e |-> "q"], [k |-> "esc", e |-> "k"], [k |-> "esc", e |-> "n"]>>),
          St(<<[k |-> "u", c |-> 0], [k |-> "u", c |-> 233], [k |-> "u", c |-> 8364], [k |-> "cp", c |-> 128512]>>),
          I(FALSE, <<1>>), Bo("T"), Obj(<<>>), Fl(FALSE, <<1>>, <<5>>, 0)} \cup (IF json THEN {} ELSE {EnV("NORTH")})
    [] t.k = "enum" -> {EnV(x) : x \in DOMAIN A!Enums[t.n]} \cup {EnV("north"), EnV("NORTHS"), I(FALSE, <<0>>), Bo("T"), Obj(<<>>), Fl(FALSE, <<1>>, <<5>>, 0)}
    [] t.k = "id" -> IF t.n = "string" THEN {Raw(<<>>), Raw(<<97, 34 + 1>>), St(<<[k |-> "esc", e |-> "q"]>>), Bo("T"), Obj(<<>>), Fl(FALSE, <<1>>, <<5>>, 0)}
                     ELSE {Raw(<<49, 50>>), Raw(<<50, 53, 53>>), Raw(<<50, 53, 54>>), Raw(<<45, 49>>), Raw(<<>>), Raw(<<97>>), Raw(<<49, 46, 53>>),
                           Raw([j \in 1..25 |-> 57]), Bo("T"), Obj(<<>>)} \cup (IF json THEN {} ELSE {I(FALSE, <<9>>)})
    [] t.k = "time" -> {Raw(TimeText), Raw(BadDay), Raw(BadHour), Raw(SubSeq(TimeText, 1, 23)), Raw(<<>>), I(FALSE, <<1>>), Bo("F"), Obj(<<>>)}
    [] t.k = "file" -> {Raw(<<102>>), Raw(<<>>), Raw(<<98, 97, 100>>), St(<<[k |-> "u", c |-> 233]>>), I(FALSE, <<1>>), Bo("T"), Obj(<<>>)}
    [] t.k = "obj" ->
         {Obj(<<>>), Bo("T"), Raw(<<120>>), I(FALSE, <<1>>), Obj(<<Fi("nope", Bo("T"))>>)}
         \cup (CASE t.n = "InA" ->
                 {Obj(<<Fi("s", Raw(<<115>>)), Fi("x", I(TRUE, <<1>>))>>), Obj(<<Fi("x", I(FALSE, <<2, 0, 0>>))>>), Obj(<<Fi("skipped", I(FALSE, <<1>>))>>),
                  Obj(<<Fi("hidden", I(FALSE, <<1>>))>>), Obj(<<Fi("Ren", EnV("NORTH"))>>),
                  Obj(<<Fi("self", Obj(<<Fi("self", Obj(<<Fi("x", I(FALSE, <<1>>)), Fi("p", Null)>>)), Fi("b", Bo("T"))>>)), Fi("renamed", EnV("NORTH"))>>),
                  Obj(<<Fi("p", Raw(<<112>>)), Fi("l", Li(<<I(FALSE, <<1>>), I(FALSE, <<2>>)>>)), Fi("lpp", Li(<<Null, Li(<<>>), Li(<<I(FALSE, <<3>>)>>)>>)), Fi("e", EnV("NEG"))>>),
                  Obj(<<Fi("self", Null), Fi("l", Null), Fi("t", Raw(TimeText)), Fi("id", Raw(<<55>>)), Fi("KEEP", Fl(FALSE, <<1>>, <<5>>, 0))>>),
                  Obj(<<Fi("f", Raw(<<102>>)), Fi("x", I(FALSE, <<1>>))>>), Obj(<<Fi("f", Null), Fi("b", Bo("T"))>>), Obj(<<Fi("f", Raw(<<98, 97, 100>>))>>)}
               [] t.n = "InB" ->
                 {Obj(<<Fi("n", Obj(<<Fi("l", Li(<<I(FALSE, <<1>>)>>))>>)), Fi("q", I(FALSE, <<9>>))>>),
                  Obj(<<Fi("ls", Li(<<Obj(<<Fi("x", I(FALSE, <<1>>))>>), Obj(<<>>), Obj(<<Fi("self", Null)>>)>>)), Fi("q", I(FALSE, <<9>>))>>),
                  Obj(<<Fi("m", Li(<<Null, Li(<<>>), Li(<<Null, Raw(<<97>>)>>)>>)), Fi("q", I(FALSE, <<9>>))>>),
                  Obj(<<Fi("lf", Li(<<Raw(<<102>>), Null, Raw(<<103>>), Raw(<<102>>)>>)), Fi("n", Obj(<<Fi("f", Raw(<<110>>))>>))>>),
                  Obj(<<Fi("ls", Li(<<Obj(<<Fi("x", Bo("T"))>>)>>))>>)}
               [] "fs" \in DOMAIN t /\ t.fs[1][2].k = "file" ->
                 {Obj(<<Fi("c", I(FALSE, <<1>>)), Fi("a", Raw(<<102>>))>>), Obj(<<Fi("b", Li(<<Raw(<<102>>), Raw(<<103>>)>>)), Fi("a", Null), Fi("c", I(FALSE, <<2>>))>>)}
               [] OTHER -> {Obj(<<Fi("b", Li(<<Raw(<<97>>)>>)), Fi("a", I(FALSE, <<1>>))>>), Obj(<<Fi("b", Null)>>)})

\* with something that is wrong for every reading of the type where the type is a list
Good(t, v) == CASE Base(t).k = "file" -> v.k = "str" [] OTHER -> TRUE
RECURSIVE Vals(_, _)
Vals(t, json) ==
  CASE t.k = "ptr" -> Vals(t.e, json) \cup {Null}
    [] t.k = "list" -> LET vs == Vals(t.e, json) IN
         {Li(<<>>), Null, IF Base(t).k = "obj" THEN Bo("T") ELSE Obj(<<>>)} \cup {Li(<<v>>) : v \in vs}
         \cup (IF t.e.k = "list" \/ Size > 1 THEN {} ELSE {Li(<<v, CHOOSE w \in vs : w.k # "null", v>>) : v \in vs})
    [] OTHER -> LeafVals(t, json) \cup (IF t.k = "file" THEN {Null} ELSE {})

-----------------------------------------------------------------------------
Seven == I(FALSE, <<7>>)
D(t) == A!DeclOf(t)
VarDecl(t, def, given) == [name |-> "v", nest |-> D(t).nest, tn |-> D(t).tn, def |-> def, given |-> given]
\* ways to write the arguments around the value
Layouts(v) == { <<Fi("a", v)>>, <<Fi("a", v), Fi("other", Seven), Fi("b", v)>>, <<Fi("other", Seven), Fi("b", v)>>, <<Fi("b", v), Fi("c", v)>> }
BadKey == ToString(<<98, 97, 100>>)

Empty == [fields |-> <<[alias |-> "r", ty |-> A!Prim("int"), args |-> <<>>]>>, vars |-> <<>>, form |-> TRUE, bad |-> <<>>]
Init == c = Empty /\ m = [pc |-> "none"] /\ b = [st |-> "type"]

PickType == /\ b.st = "type"
            /\ \E t \in Types : c' = [c EXCEPT !.fields[1].ty = t]
            /\ b' = [b EXCEPT !.st = "value"] /\ UNCHANGED m
T == c.fields[1].ty
Begin(cc) == c' = cc /\ b' = [st |-> "start"] /\ UNCHANGED m
PickLiteral == /\ b.st = "value" /\ Conf # "var"
               /\ \E v \in Vals(T, FALSE) : \E l \in Layouts(v) :
                    \/ Begin([c EXCEPT !.fields[1].args = l])
                    \/ Conf = "file" /\ Begin([c EXCEPT !.fields[1].args = l, !.form = FALSE])
                    \/ Conf = "file" /\ Begin([c EXCEPT !.fields[1].args = l, !.bad = <<BadKey>>])
Named(t) == IF Base(t).k = "obj" THEN Base(t).n # "" ELSE TRUE
ADef == CHOOSE v \in Vals(T, TRUE) : A!Bind(T, v, "def").ok /\ (Size = 1 => v.k # "null")
PickVariable ==
  /\ b.st = "value" /\ Conf # "lit" /\ Named(T)
  /\ \E v \in Vals(T, TRUE), how \in {"given", "default", "overridden", "shadowed"} :
       LET w == CASE how = "given" -> VarDecl(T, None, v) [] how = "default" -> VarDecl(T, v, None)
                  [] how = "overridden" -> VarDecl(T, ADef, v) [] how = "shadowed" -> VarDecl(T, v, ADef)
           cc == [c EXCEPT !.vars = <<w>>, !.fields[1].args = IF Size = 1 THEN <<Fi("a", Var("v")), Fi("other", Seven), Fi("b", Var("v"))>> ELSE <<Fi("b", Var("v"))>>] IN
       \/ Begin(cc)
       \/ Conf = "file" /\ how # "overridden" /\ Begin([cc EXCEPT !.bad = <<BadKey>>])
\* the variable stands inside a list or an object
PickNested ==
  /\ b.st = "value" /\ Conf = "var" /\ T.k = "list" /\ Named(T)
  /\ \E v \in Vals(T.e, TRUE), dft \in BOOLEAN :
       LET w == IF dft THEN VarDecl(T.e, v, None) ELSE VarDecl(T.e, None, v) IN
       Begin([c EXCEPT !.vars = <<w>>, !.fields[1].args = <<Fi("b", Li(<<Var("v"), Var("v")>>))>>])
PickMissing ==
  /\ b.st = "value" /\ Conf = "var"
  /\ \E how \in {"undeclared", "valueless", "deeper", "other"} :
       LET w == CASE how = "undeclared" -> [VarDecl(T, ADef, ADef) EXCEPT !.name = "V"] [] how = "valueless" -> VarDecl(T, None, None)
                  [] how = "deeper" -> [VarDecl(T, None, ADef) EXCEPT !.nest = @ + 1]
                  [] how = "other" -> [VarDecl(T, None, ADef) EXCEPT !.tn = IF @ = "Int" THEN "Float" ELSE "Int"] IN
       Begin([c EXCEPT !.vars = <<w>>, !.fields[1].args = <<Fi("a", Var("v"))>>])
Start == b.st = "start" /\ m' = A!InitM /\ b' = [st |-> "run"] /\ UNCHANGED c
Run == b.st = "run" /\ m.pc # "done" /\ A!Step /\ UNCHANGED <<c, b>>
Emit == /\ b.st = "run" /\ m.pc = "done"
        /\ PrintT("CASE " \o ToJson(c))
        /\ b' = [st |-> "emitted"] /\ UNCHANGED <<c, m>>
Stop == b.st = "emitted" /\ UNCHANGED <<c, b, m>>
Next == PickType \/ PickLiteral \/ PickVariable \/ PickNested \/ PickMissing \/ Start \/ Run \/ Emit \/ Stop
Spec == Init /\ [][Next]_<<c, b, m>>

-----------------------------------------------------------------------------
\* tokens a value of the type may have: the position behind them, 0 when they are not of the type
RECURSIVE Eat(_, _, _), EatElems(_, _, _), EatFields(_, _, _, _)
Eat(t, s, j) ==
  IF j > Len(s) THEN 0
  ELSE CASE t.k = "ptr" -> IF s[j] = "nil" THEN j + 1 ELSE IF s[j] = "&" THEN Eat(t.e, s, j + 1) ELSE 0
         [] t.k = "list" -> IF s[j] = "nil" THEN j + 1 ELSE IF s[j] = "[" THEN EatElems(t.e, s, j + 1) ELSE 0
         [] t.k = "obj" -> IF s[j] = "{" THEN EatFields(A!ObjFields(t), 1, s, j + 1) ELSE 0
         [] OTHER -> IF s[j] \in {"&", "[", "]", "{", "}"} THEN 0 ELSE j + 1
EatElems(t, s, j) == IF j > Len(s) THEN 0 ELSE IF s[j] = "]" THEN j + 1 ELSE LET n == Eat(t, s, j) IN IF n = 0 THEN 0 ELSE EatElems(t, s, n)
EatFields(fs, l, s, j) == IF l > Len(fs) THEN (IF j <= Len(s) /\ s[j] = "}" THEN j + 1 ELSE 0)
                          ELSE LET n == Eat(fs[l][2], s, j) IN IF n = 0 THEN 0 ELSE EatFields(fs, l + 1, s, n)

\* whatever is received is a value of the type
Typed == b.st = "run" => \A j \in DOMAIN m.got : LET g == m.got[j] IN Eat(T, g[1], 1) = Len(g[1]) + 1 /\ Eat(T, g[2], 1) = Len(g[2]) + 1
\* a variable means its value: writing the value in place of the variable gives the same arguments
RECURSIVE HasIdInt(_)
HasIdInt(v) == v.k = "int"
Subst(v) == IF v.k = "var" /\ A!VarIdx(v.name) # 0 THEN
              LET w == c.vars[A!VarIdx(v.name)] IN IF w.given.k # "none" THEN w.given ELSE w.def
            ELSE v
Transparent ==
  b.st = "run" /\ m.pc = "done" /\ m.failed = 0 /\ c.vars # <<>> =>
    \A j \in DOMAIN c.fields[1].args :
      LET a == c.fields[1].args[j] IN
      a.n # "other" /\ a.v.k = "var" => A!Bind(T, Subst(a.v), "lit").toks = m.got[1][A!ArgPos(a.n)]
\* no argument that is not given has anything but its zero value
Omitted ==
  b.st = "run" /\ m.pc = "done" /\ m.failed = 0 =>
    \A p \in 1..3 : (\A j \in DOMAIN c.fields[1].args : c.fields[1].args[j].n # A!ArgNames[p]) => m.got[1][p] = A!ZeroT(A!ArgType(c.fields[1], A!ArgNames[p]))
\* a lookup for every file that is received, none otherwise
CountTok(s) == Cardinality({j \in DOMAIN s : \E l \in DOMAIN m.looks : s[j] = "file:" \o m.looks[l]})
Looked == b.st = "run" /\ m.pc = "done" /\ m.failed = 0 =>
    Len(m.looks) = CountTok(m.got[1][1]) + CountTok(m.got[1][2])
ASSUME \A n \in {0, 1, 9, 10, 127, 128, 129, 255, 256, 999} :
         LET ds == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>> IN
         /\ A!InRange("int8", FALSE, ds) = (n < 128) /\ A!InRange("int8", TRUE, ds) = (n <= 128)
         /\ A!InRange("uint8", FALSE, ds) = (n < 256) /\ ~A!InRange("uint8", TRUE, ds)
ASSUME \A n \in {7, 8, 15, 16, 31, 32, 63, 64} : A!P2(n) = A!PowOf(n)
GenInv == (b.st = "run" => A!ArgsInv) /\ Typed /\ Transparent /\ Omitted /\ Looked
=============================================================================
