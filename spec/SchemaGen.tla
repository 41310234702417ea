------------------------------ MODULE SchemaGen ------------------------------
(* All definitions made of one thing at one place: every type expression of  *)
(* up to Size constructors at every place where a type can stand, every tag, *)
(* every combination of results and parameters of a function, every root.    *)
(* Names that begin with % belong to the definition, the others are shared.  *)
(* ' at the end of a name is not part of it in Go: the type is one inside of *)
(* a function and has the name of another one.                               *)
(* ~ and ^ in a name stand for a small and a capital letter outside ASCII.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)          \* constructors around a type

VARIABLES c, m
S == INSTANCE Schema WITH C <- c

B(b) == [k |-> "basic", b |-> b]
T(n) == [k |-> "named", n |-> n]
K(k) == [k |-> k]
W(k, e) == [k |-> k, e |-> e]
F(ps, os) == [k |-> "func", params |-> ps, outs |-> os, variadic |-> FALSE]
NoTag == [has |-> FALSE, name |-> "", chars |-> <<>>, mods |-> <<>>]
Fld(go, low, t) == [go |-> go, low |-> low, up2 |-> FALSE, good |-> TRUE, exp |-> TRUE, emb |-> FALSE, tag |-> NoTag, t |-> t]
Meth(go, low, t) == [go |-> go, res |-> TRUE, low |-> low, up2 |-> FALSE, good |-> TRUE, t |-> t]
Struct(n, fs, ms) == [n |-> n, k |-> "struct", ql |-> n, tgood |-> TRUE, loc |-> FALSE, under |-> "", fs |-> fs, ms |-> ms, impl |-> <<>>, members |-> <<>>]
Basic(n, u, mem) == [n |-> n, k |-> "basic", ql |-> n, tgood |-> TRUE, loc |-> FALSE, under |-> u, fs |-> <<>>, ms |-> <<>>, impl |-> <<>>, members |-> mem]
Iface(n, ms) == [n |-> n, k |-> "iface", ql |-> n, tgood |-> TRUE, loc |-> FALSE, under |-> "", fs |-> <<>>, ms |-> ms, impl |-> <<>>, members |-> <<>>]

Str == B("string")
Anon == [k |-> "anon", fs |-> <<Fld("U", "u", Str)>>]
GetN == <<Meth("N", "n", F(<<>>, <<Str>>))>>
Lib == << Struct("GS", <<Fld("A", "a", Str)>>, <<>>), Struct("GM", <<>>, <<>>), Struct("GIn", <<Fld("C", "c", B("int"))>>, <<>>),
          Basic("GE", "int8", <<"Xa", "Yb">>), Basic("GB", "int16", <<>>), Basic("GT", "string", <<>>), Basic("GO", "bool", <<>>),
          Iface("GI", GetN), [Struct("GA", <<>>, GetN) EXCEPT !.impl = <<"GI">>], Iface("GN", GetN) >>

\* the smallest definition around a type
Def(fs, ms, more, dirs) ==
  [decls |-> <<Struct("%Q", fs, ms)>> \o more \o Lib, q |-> T("%Q"), mu |-> T("GM"), dirs |-> dirs, known |-> ""]

Leaves == {B(b) : b \in {"string", "bool", "int", "int8", "uint", "uint64", "float32", "float64"}}
          \cup {T(n) : n \in {"GS", "GE", "GB", "GT", "GO", "GI", "GN"}} \cup {Anon}
          \cup {K(k) : k \in {"time", "file", "any", "map", "chan", "complex", "uintptr", "unsafe", "loops", "loopp", "loopm", "loopa", "loopf"}} \cup {F(<<>>, <<Str>>)}
          \cup {W("ptr", K("file"))}
AllBasics == {B(b) : b \in {"int16", "int32", "int64", "uint8", "uint16", "uint32"}}
Nest == {Str, B("int"), T("GS"), T("GE"), T("GI"), Anon, K("time"), K("map"), W("ptr", K("file"))}
RECURSIVE Around(_, _, _)
Around(n, ks, X) == IF n = 0 THEN X ELSE {W(k, e) : k \in ks, e \in Around(n - 1, ks, X)}
Exprs(ks) == UNION {IF n = 0 THEN Leaves \cup AllBasics ELSE Around(n, ks, IF n = 1 THEN Leaves ELSE Nest) : n \in 0..Size}
OutExprs == Exprs({"ptr", "slice", "array"})
InExprs == Exprs({"ptr", "slice"})

InArg(t) == F(<<[k |-> "anon", fs |-> <<Fld("X", "x", t)>>]>>, <<Str>>)
InInput(t) == F(<<[k |-> "anon", fs |-> <<Fld("X", "x", [k |-> "anon", fs |-> <<Fld("Y", "y", t)>>])>>]>>, <<Str>>)
Tagged(f, tag) == [f EXCEPT !.tag = tag]
WithIface(f) == Def(<<Fld("I", "i", T("%I"))>>, <<>>, <<Iface("%I", <<Meth("F", "f", f)>>), [Struct("%A", <<>>, <<Meth("F", "f", f)>>) EXCEPT !.impl = <<"%I">>]>>, <<>>)
\* a type without a name is another one in an interface and in the objects that have it
RECURSIVE HasAnon(_)
HasAnon(t) == t.k = "anon" \/ (t.k \in {"ptr", "slice", "array"} /\ HasAnon(t.e))
Dir(n, locs, params) == [n |-> n, locs |-> locs, desc |-> "d", params |-> params]

\* every type at every place
Types ==
  \/ \E t \in OutExprs :
       \/ c = Def(<<Fld("F", "f", t)>>, <<>>, <<>>, <<>>) /\ t.k # "func"
       \/ c = Def(<<Fld("F", "f", F(<<>>, <<t>>))>>, <<>>, <<>>, <<>>)
       \/ c = Def(<<>>, <<Meth("F", "f", F(<<>>, <<t>>))>>, <<>>, <<>>)
       \/ c = WithIface(F(<<>>, <<t>>)) /\ ~HasAnon(t)
       \/ c = Def(<<>>, <<Meth("F", "f", F(<<>>, <<t, K("attrid")>>))>>, <<>>, <<>>)
  \/ \E t \in InExprs :
       \/ c = Def(<<>>, <<Meth("F", "f", InArg(t))>>, <<>>, <<>>)
       \/ c = Def(<<Fld("F", "f", InInput(t))>>, <<>>, <<>>, <<>>)
       \/ c = WithIface(InArg(t)) /\ ~HasAnon(t)
       \/ c = Def(<<>>, <<>>, <<>>, <<Dir("dd", <<"FIELD">>, <<[k |-> "anon", fs |-> <<Fld("X", "x", t)>>]>>)>>)

TagsOf == {[has |-> TRUE, name |-> t.n, chars |-> t.c, mods |-> ms] :
             t \in {[n |-> "", c |-> <<>>], [n |-> "zz", c |-> <<122, 122>>], [n |-> "Z_9", c |-> <<90, 95, 57>>], [n |-> "-", c |-> <<45>>],
                    [n |-> "9a", c |-> <<57, 97>>], [n |-> "_a", c |-> <<95, 97>>], [n |-> "a-b", c |-> <<97, 45, 98>>], [n |-> "a b", c |-> <<97, 32, 98>>]},
             ms \in {<<>>, <<"id">>, <<"ID">>, <<"Id">>, <<"ids">>, <<"">>, <<"id", "id">>, <<"id", "x">>}}
Tags ==
  \E tag \in TagsOf :
    \/ \E t \in {Str, B("int"), B("uint8"), B("float64"), B("bool"), T("GS"), T("GE"), T("GB"), T("GI"), K("time"), W("ptr", Str), W("ptr", W("ptr", B("int"))), W("slice", Str), F(<<>>, <<B("int")>>), F(<<>>, <<T("GS")>>)} :
         c = Def(<<Tagged(Fld("F", "f", t), tag), Fld("G", "g", Str)>>, <<>>, <<>>, <<>>)
    \/ \E t \in {Str, B("int"), B("bool"), T("GE"), T("GIn"), K("time"), W("ptr", K("file")), W("ptr", Str), W("slice", Str)} :
         \/ c = Def(<<>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Tagged(Fld("X", "x", t), tag), Fld("W", "w", Str)>>]>>, <<Str>>))>>, <<>>, <<>>)
         \/ c = Def(<<>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Fld("X", "x", [k |-> "anon", fs |-> <<Tagged(Fld("Y", "y", t), tag)>>])>>]>>, <<Str>>))>>, <<>>, <<>>)

\* every name
Names == { [go |-> "A", low |-> "a", up2 |-> FALSE, good |-> TRUE], [go |-> "Ab", low |-> "ab", up2 |-> FALSE, good |-> TRUE], [go |-> "AB", low |-> "aB", up2 |-> TRUE, good |-> TRUE],
           [go |-> "ABc", low |-> "aBc", up2 |-> TRUE, good |-> TRUE], [go |-> "AbC", low |-> "abC", up2 |-> FALSE, good |-> TRUE], [go |-> "A1", low |-> "a1", up2 |-> TRUE, good |-> TRUE], [go |-> "A_b", low |-> "a_b", up2 |-> TRUE, good |-> TRUE], [go |-> "Abcd_9X", low |-> "abcd_9X", up2 |-> FALSE, good |-> TRUE],
           [go |-> "^b", low |-> "^b", up2 |-> FALSE, good |-> FALSE], [go |-> "Ab~", low |-> "ab~", up2 |-> FALSE, good |-> FALSE] }
Named(x, n) == [x EXCEPT !.go = n.go, !.low = n.low, !.up2 = n.up2, !.good = n.good]
NamesAt ==
  \E n \in Names :
    \/ c = Def(<<Named(Fld("F", "f", Str), n), Fld("Zz", "zz", Str)>>, <<>>, <<>>, <<>>)
    \/ c = Def(<<Named(Fld("F", "f", F(<<>>, <<Str>>)), n)>>, <<>>, <<>>, <<>>)
    \/ c = Def(<<>>, <<Named(Meth("F", "f", F(<<>>, <<Str>>)), n)>>, <<>>, <<>>)
    \/ \E g \in {n.go, "Resolve", "Resolvea", "resolveA", "AResolve", "Resolving"} :
         c = Def(<<>>, <<[Meth("F", "f", F(<<>>, <<>>)) EXCEPT !.res = FALSE, !.go = g]>>, <<>>, <<>>)
    \/ c = Def(<<>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Named(Fld("X", "x", Str), n)>>]>>, <<Str>>))>>, <<>>, <<>>)
    \/ c = Def(<<>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Fld("X", "x", [k |-> "anon", fs |-> <<Named(Fld("X", "x", Str), n)>>])>>]>>, <<Str>>))>>, <<>>, <<>>)
    \/ n.good /\ c = Def(<<Fld("E", "e", T("%E"))>>, <<>>, <<Basic("%E", "string", <<n.go, "Oo">>)>>, <<>>)
    \/ n.good /\ c = Def(<<Fld("E", "e", T("%E"))>>, <<>>, <<[Struct("%E", <<Fld("E", "e", W("ptr", T("%E")))>>, <<>>) EXCEPT !.ql = "%R" \o n.go]>>, <<>>)

\* every combination of results and parameters
RECURSIVE Seqs(_, _)
Seqs(X, n) == IF n = 0 THEN {<<>>} ELSE LET p == Seqs(X, n - 1) IN p \cup {Append(s, x) : s \in {t \in p : Len(t) = n - 1}, x \in X}
Outs == Seqs({Str, T("GS"), K("error"), K("attrid")}, 3)
Args1 == [k |-> "anon", fs |-> <<Fld("X", "x", Str)>>]
Args2 == [k |-> "anon", fs |-> <<Fld("Y", "y", B("int")), Fld("V", "v", T("GIn"))>>]
Params == Seqs({W("ptr", K("ctx")), Args1, T("GIn"), B("int")}, 2)
          \cup {<<K("ctx")>>, <<W("ptr", Args1)>>, <<W("slice", Str)>>, <<W("ptr", K("ctx")), Args1, W("ptr", K("ctx")), Args2>>, <<T("GE")>>, <<K("any")>>, <<W("ptr", W("ptr", K("ctx")))>>, <<T("GI")>>, <<W("ptr", T("GIn"))>>}
Funcs ==
  \E os \in Outs, ps \in Params, v \in BOOLEAN :
    /\ (Len(ps) > 0 => os \in {<<Str>>, <<K("error"), T("GS")>>})
    /\ (v => Len(ps) > 0 /\ os = <<Str>> /\ ps[Len(ps)].k = "slice")
    /\ LET f == [F(ps, os) EXCEPT !.variadic = v] IN
       \/ c = Def(<<Fld("F", "f", f)>>, <<>>, <<>>, <<>>)
       \/ c = Def(<<>>, <<Meth("F", "f", f)>>, <<>>, <<>>)
       \/ c = WithIface(f)

\* every root, and things that stand alone
RootTypes == {T("%Q"), T("GM"), T("GS"), W("ptr", T("%Q")), W("slice", T("GM")), Str, T("GE"), K("time"), K("map"), K("chan"), F(<<>>, <<Str>>)}
Roots ==
  \/ \E q \in RootTypes, mu \in RootTypes :
       c = [Def(<<Fld("F", "f", Str)>>, <<>>, <<>>, <<>>) EXCEPT !.q = q, !.mu = mu]
  \* embedded, unexported methods, an object that is used as input as well, recursion
  \/ \E emb \in BOOLEAN, tag \in {NoTag, [NoTag EXCEPT !.has = TRUE, !.name = "nn", !.chars = <<110, 110>>]} :
       c = Def(<<[Fld("GS", "gS", T("GS")) EXCEPT !.emb = emb, !.tag = tag, !.up2 = TRUE], Fld("H", "h", Str)>>, <<>>, <<>>, <<>>)
  \/ \E a \in {"GS", "GIn"}, b \in {"GS", "GIn"}, d \in {W("ptr", Str), W("slice", T("GS")), T("GIn"), T("GS")} :
       c = Def(<<Fld("A", "a", T(a))>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Fld("X", "x", T(b)), Fld("Y", "y", d)>>]>>, <<Str>>))>>, <<>>, <<>>)
  \/ \E k \in {"ptr", "slice"} :
       \/ c = Def(<<Fld("A", "a", T("%R"))>>, <<Meth("F", "f", F(<<[k |-> "anon", fs |-> <<Fld("X", "x", T("%R"))>>]>>, <<T("%R")>>))>>, <<Struct("%R", <<Fld("N", "n", W(k, T("%R"))), Fld("O", "o", W("ptr", W("slice", W("ptr", T("%R"))))), Fld("S", "s", Str)>>, <<>>)>>, <<>>)
       \/ c = Def(<<Fld("A", "a", T("%R"))>>, <<>>, <<Struct("%R", <<Fld("N", "n", W(k, T("%I")))>>, <<Meth("F", "f", F(<<>>, <<T("%R")>>))>>), Iface("%I", <<Meth("F", "f", F(<<>>, <<T("%R")>>)), Meth("G", "g", F(<<>>, <<W(k, T("%I"))>>))>>), [Struct("%A", <<Fld("Z", "z", T("GI"))>>, <<Meth("F", "f", F(<<>>, <<T("%R")>>)), Meth("G", "g", F(<<>>, <<W(k, T("%I"))>>))>>) EXCEPT !.impl = <<"%I">>]>>, <<>>)
  \* an interface that is only reached through one of its implementations; several of both
  \/ \E imp \in {<<>>, <<"%I">>, <<"%J">>, <<"%I", "%J">>, <<"%J", "%K", "%I">>}, imp2 \in {<<"%I">>, <<"%K", "%J">>}, t \in {T("%A"), T("%B"), T("%I"), T("%J"), T("%K")} :
       c = Def(<<Fld("A", "a", t)>>, <<>>, <<Iface("%I", GetN), Iface("%J", GetN), Iface("%K", GetN), [Struct("%A", <<>>, GetN) EXCEPT !.impl = imp], [Struct("%B", <<Fld("O", "o", Str)>>, GetN) EXCEPT !.impl = imp2]>>, <<>>)
  \* directives
  \/ \E locs \in {<<"FIELD">>, <<"FRAGMENT_SPREAD", "INLINE_FRAGMENT">>, <<"INLINE_FRAGMENT", "FIELD", "FRAGMENT_SPREAD">>}, ps \in {<<>>, <<W("ptr", K("ctx"))>>, <<Args1>>, <<Args1, W("ptr", K("ctx")), Args2>>} :
       \/ c = Def(<<>>, <<>>, <<>>, <<Dir("dd", locs, ps)>>)
       \/ c = Def(<<>>, <<>>, <<>>, <<Dir("dd", locs, ps), Dir("d9_E", <<"FIELD">>, <<Args2>>)>>)
       \/ locs # <<"FIELD">> /\ locs[1] # "INLINE_FRAGMENT" /\ c = Def(<<>>, <<>>, <<>>, <<Dir("dd", locs, ps), Dir("dd", <<"FIELD">>, ps)>>)

\* names of types: those that are none in GraphQL, and one name for two types
Odd(d) == [d EXCEPT !.tgood = FALSE]
Ql(d, n) == [d EXCEPT !.ql = n]
Loc(d, n) == [d EXCEPT !.loc = TRUE, !.ql = n]
Takes(t) == F(<<[k |-> "anon", fs |-> <<Fld("X", "x", t)>>]>>, <<Str>>)
Emb == [Fld("%H", "", T("%H")) EXCEPT !.emb = TRUE]
HasN == Struct("%H", <<>>, GetN)
Prom == <<[prom |-> TRUE] @@ GetN[1]>>
One(t, d) == \E w \in {t, W("ptr", t), W("slice", t), F(<<>>, <<t>>)} : c = Def(<<Fld("F", "f", w)>>, <<>>, d, <<>>)
TypeNames ==
  \/ \E n \in {"%T~", "%~", "%T~a9"} :
       \/ One(T(n), <<Odd(Struct(n, <<Fld("A", "a", Str)>>, <<>>))>>)
       \/ One(T(n), <<Ql(Struct(n, <<Fld("A", "a", Str)>>, <<>>), "%T")>>)
       \/ One(T(n), <<Odd(Iface(n, GetN)), [Struct("%A", <<>>, GetN) EXCEPT !.impl = <<n>>]>>)
       \/ One(T("%A"), <<Odd(Iface(n, GetN)), [Struct("%A", <<>>, GetN) EXCEPT !.impl = <<n>>]>>)
       \/ One(T("%I"), <<Iface("%I", GetN), [Odd(Struct(n, <<>>, GetN)) EXCEPT !.impl = <<"%I">>]>>)
       \/ One(T("%I"), <<Iface("%I", GetN), [Ql(Struct(n, <<>>, GetN), "%A") EXCEPT !.impl = <<"%I">>]>>)
       \/ One(T(n), <<Odd(Basic(n, "int", <<>>))>>)
       \/ \E w \in {T(n), W("ptr", T(n)), W("slice", T(n))} :
            \/ c = Def(<<Fld("F", "f", Takes(w))>>, <<>>, <<Odd(Struct(n, <<Fld("A", "a", Str)>>, <<>>))>>, <<>>)
            \/ c = Def(<<Fld("F", "f", Takes(w))>>, <<>>, <<Ql(Struct(n, <<Fld("A", "a", Str)>>, <<>>), "%T")>>, <<>>)
            \/ c = Def(<<Fld("F", "f", Takes(w))>>, <<>>, <<Odd(Basic(n, "int", <<>>))>>, <<>>)
       \* the type of a parameter itself is nowhere to be seen
       \/ c = Def(<<Fld("F", "f", F(<<T(n)>>, <<Str>>))>>, <<>>, <<Odd(Struct(n, <<Fld("A", "a", Str)>>, <<>>))>>, <<>>)
       \/ c = [Def(<<Fld("F", "f", Str)>>, <<>>, <<Odd(Struct(n, <<>>, <<>>))>>, <<>>) EXCEPT !.mu = T(n)]
       \/ c = [Def(<<Fld("F", "f", Str)>>, <<>>, <<Odd(Struct(n, <<Fld("A", "a", Str)>>, <<>>))>>, <<>>) EXCEPT !.q = T(n)]
       \/ c = [Def(<<Fld("F", "f", Str)>>, <<>>, <<Ql(Struct(n, <<Fld("A", "a", Str)>>, <<>>), "%T")>>, <<>>) EXCEPT !.q = T(n)]
  \* two of one name: an object or input that gets the name of something else, used or not
  \/ \E b \in {"object", "input", "none"}, n \in {"%A", "%I", "%E", "%N", "%A__input", "%N__input", "Int", "ID", "Float", "String", "Boolean", "Time", "File", "%Q", "GM", "int", "%K"}, both \in BOOLEAN, first \in BOOLEAN :
       LET u == IF b = "object" THEN <<Fld("B", "b", T("%B"))>> ELSE IF b = "input" THEN <<Fld("B", "b", Takes(T("%B")))>> ELSE <<>>
           v == IF both THEN <<Fld("X", "x", T("%A")), Fld("Y", "y", Takes(T("%A"))), Fld("Z", "z", T("%I")), Fld("W", "w", Takes(T("%N")))>> ELSE <<Fld("X", "x", T("%A")), Fld("W", "w", Takes(T("%N")))>>
       IN c = Def(IF first THEN u \o v ELSE v \o u, <<>>, <<Struct("%A", <<Fld("A", "a", Str)>>, <<>>), Struct("%N", <<Fld("A", "a", Str)>>, <<>>), Iface("%I", GetN), [Struct("%C", <<>>, GetN) EXCEPT !.impl = <<"%I">>],
                Basic("%E", "int", <<"Xx">>), Ql(Struct("%B", <<Fld("B", "b", Str)>>, <<>>), n)>>, <<>>)
  \* types inside of a function
  \/ \E w \in {"same", "out", "in", "outin", "iface", "impl", "impl2", "root", "ren"} :
       c = LET L(fs) == Loc(Struct("%L", fs, <<>>), "%L")
               O(x, ms) == Struct("%A", <<Fld("A", "a", x)>>, ms)
               A2(fs, ms, n) == Loc(Struct("%A'", fs, ms), n)
               Two(fs, ds) == [Def(<<>>, <<>>, ds \o <<Loc(Struct("%R", fs, <<>>), "%R")>>, <<>>) EXCEPT !.q = T("%R")]
               Both(a, b) == <<Fld("L", "l", T("%L")), Fld("B", "b", b)>>
           IN CASE w = "same" -> Two(<<Fld("L", "l", T("%L"))>>, <<O(Str, <<>>), L(<<Fld("X", "x", T("%A"))>>)>>)
                [] w = "out" -> Two(Both("", T("%A'")), <<O(Str, <<>>), L(<<Fld("X", "x", T("%A"))>>), A2(<<Fld("C", "c", B("int"))>>, <<>>, "%A")>>)
                [] w = "ren" -> Two(Both("", T("%A'")), <<O(Str, <<>>), L(<<Fld("X", "x", T("%A"))>>), A2(<<Fld("C", "c", B("int"))>>, <<>>, "%Other")>>)
                [] w = "in" -> Two(Both("", Takes(T("%A'"))), <<O(Str, <<>>), L(<<Fld("X", "x", Takes(T("%A")))>>), A2(<<Fld("C", "c", B("int"))>>, <<>>, "%A")>>)
                [] w = "outin" -> Two(Both("", Takes(T("%A'"))), <<O(Str, <<>>), L(<<Fld("X", "x", T("%A"))>>), A2(<<Fld("C", "c", B("int"))>>, <<>>, "%A")>>)
                [] w = "iface" -> Two(Both("", T("%I'")), <<HasN, Iface("%I", GetN), [Struct("%A", <<>>, GetN) EXCEPT !.impl = <<"%I">>], L(<<Fld("X", "x", T("%I"))>>), Loc(Iface("%I'", GetN), "%I"),
                                      [Loc(Struct("%B", <<Emb>>, Prom), "%B") EXCEPT !.impl = <<"%I'">>]>>)
                [] w = "impl" -> Two(<<Fld("L", "l", T("%I"))>>, <<HasN, Iface("%I", GetN), [Struct("%A", <<>>, GetN) EXCEPT !.impl = <<"%I">>], [A2(<<Emb, Fld("C", "c", Str)>>, Prom, "%A") EXCEPT !.impl = <<"%I">>]>>)
                [] w = "impl2" -> Two(<<Fld("L", "l", T("%I"))>>, <<HasN, Iface("%I", GetN), [Struct("%A", <<>>, GetN) EXCEPT !.impl = <<"%I">>], [A2(<<Emb, Fld("C", "c", Str)>>, Prom, "%Other") EXCEPT !.impl = <<"%I">>]>>)
                [] OTHER -> [Two(<<Fld("X", "x", T("%A'"))>>, <<O(Str, <<>>), A2(<<Fld("C", "c", B("int"))>>, <<>>, "%A")>>) EXCEPT !.mu = T("%A'")]

\* definitions on which the code is known to deviate (known-findings.json); nothing else has them in it
Hidden(t) == [Fld("f", "f", t) EXCEPT !.exp = FALSE]
KnownHidden ==
  \E t \in {Str, B("int"), T("GS"), T("GE"), T("GI"), W("ptr", Str), W("slice", T("GS")), K("time"), K("map")} :
       c = [Def(<<Hidden(t), Fld("H", "h", Str)>>, <<>>, <<>>, <<>>) EXCEPT !.known = "unexported field"]
KnownAnon ==
  \E t \in {Anon, W("ptr", Anon), W("slice", Anon)} :
       \/ c = [WithIface(F(<<>>, <<t>>)) EXCEPT !.known = "anonymous struct in an interface"]
       \/ c = [WithIface(InArg(t)) EXCEPT !.known = "anonymous struct in an interface"] /\ t.k # "array"

Init == /\ CASE Conf = "types" -> Types [] Conf = "hidden" -> KnownHidden [] Conf = "ianon" -> KnownAnon [] Conf = "tags" -> Tags [] Conf = "names" -> NamesAt [] Conf = "typenames" -> TypeNames [] Conf = "funcs" -> Funcs [] OTHER -> Roots
        /\ m = S!InitM
Emit == m.pc \in {"accepted", "refused"} /\ PrintT("CASE " \o ToJson(c)) /\ m' = [m EXCEPT !.pc = "out"] /\ UNCHANGED c
Over == m.pc = "out" /\ UNCHANGED <<c, m>>
Next == (S!Step /\ UNCHANGED c) \/ Emit \/ Over
Spec == Init /\ [][Next]_<<c, m>>
GenInv == S!SchemaInv
=============================================================================
