------------------------------ MODULE ExecGen ------------------------------
(* Exhaustive exploration: every document that can be built from a small    *)
(* alphabet within a size bound, for every small world, is built step by    *)
(* step, executed by the machine of Exec, checked against an independent    *)
(* (denotational) description of the answer, and printed so that it can be  *)
(* replayed on the real code.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)     \* number of selections in a document

VARIABLES b, m
(* b: the document being built and everything else of the case              *)
Ty == INSTANCE ExecTypes
Fields == Ty!Fields
E == INSTANCE Exec WITH C <- b, Table <- Fields

L(s) == [k |-> "leaf", s |-> s]
Nul  == [k |-> "null"]
N(n) == [k |-> "node", n |-> n]
Li(xs) == [k |-> "list", xs |-> xs]
R(v) == [k |-> "res", v |-> v, err |-> "", act |-> ""]
RE(v, e) == [k |-> "res", v |-> v, err |-> e, act |-> ""]
RA(v, a) == [k |-> "res", v |-> v, err |-> "", act |-> a]

None == "zz" :> Nul     \* no value given
Bare7 == "m" :> R(L("m7")) @@ "mo" :> R(N(4)) @@ "b" :> R(N(7)) @@ "bp" :> R(N(7)) @@ "bl" :> R(Li(<<N(7), N(7)>>))
World(q, mu, o3, o4, r5, a6) ==
  [nodes |-> << [ty |-> "Q", vals |-> q], [ty |-> "M", vals |-> mu], [ty |-> "Obj", vals |-> o3], [ty |-> "Obj", vals |-> o4],
                [ty |-> "Renamed", vals |-> r5], [ty |-> "Alt", vals |-> a6], [ty |-> "Bare", vals |-> Bare7] >>]
Abc(x) == "a" :> L(x)

\* every sequence over S with at most n elements
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Objs3 == "bv" :> N(7) @@ Abc("o3") @@ "op" :> N(4) @@ "ol" :> Li(<<N(4)>>) @@ "i" :> N(6) @@ "il" :> Li(<<N(4), N(5)>>) @@ "m" :> R(L("m3")) @@ "mo" :> R(N(4)) @@ "x" :> N(6)
Objs4 == "bv" :> N(7) @@ Abc("o4") @@ "op" :> Nul @@ "opl" :> Li(<<>>) @@ "m" :> R(L("m4")) @@ "mo" :> R(Nul) @@ "i" :> N(5) @@ "x" :> N(6)
Ren5  == Abc("r5") @@ "m" :> R(L("m5")) @@ "mo" :> R(N(3)) @@ "i" :> Nul
Alt6  == Abc("a6") @@ "m" :> R(L("m6")) @@ "mo" :> R(N(3)) @@ "op" :> N(3)
Q1    == "bv" :> N(7) @@ "bq" :> N(7) @@ Abc("q") @@ "op" :> N(3) @@ "ol" :> Li(<<N(3), N(4)>>) @@ "opl" :> Li(<<N(3), Nul, N(4)>>) @@ "i" :> N(6)
         @@ "il" :> Li(<<N(3), N(6)>>) @@ "m" :> R(L("m1")) @@ "mo" :> R(N(3)) @@ "ml" :> R(Li(<<N(4), N(3)>>)) @@ "me" :> R(L("e1")) @@ "g" :> R(L("0")) @@ "x" :> N(6)

\* per configuration: the worlds, the selections that can be added, and the rest of the case
WorldsOf ==
  CASE Conf = "shape" -> { World(Q1 @@ "oll" :> ll, None, Objs3, Objs4, Ren5, Alt6) :
                           ll \in {Li(<<>>), Nul, Li(<<Li(<<N(3)>>), Nul, Li(<<>>), Li(<<N(4), N(3)>>)>>)} }
    [] Conf = "frag"  -> { World(Q1, None, Objs3, Objs4, Ren5, Alt6) }
    [] Conf = "dir"   -> { World(Q1, None, Objs3, Objs4, Ren5, Alt6) }
    [] Conf = "err"   -> { World(Abc("q") @@ "m" :> RE(L("m1"), e1) @@ "ml" :> RE(Li(<<N(4), N(3)>>), e2) @@ "op" :> N(3) @@ "mo" :> RE(x, e1), None,
                                 Objs3 @@ "zz" :> Nul, [Objs4 EXCEPT !["m"] = RE(L("m4"), e3)], Ren5, Alt6) :
                           e1 \in {"", "err one"}, e2 \in {"", "err two"}, e3 \in {"", "err three"}, x \in {N(3), Nul} }
    [] Conf = "ctx"   -> { World(Abc("q") @@ "m" :> RA(L("m1"), a1) @@ "ml" :> RA(Li(<<N(3), N(4)>>), a2) @@ "me" :> R(L("e1")), None,
                                 [Objs3 EXCEPT !["m"] = RA(L("m3"), a3)], Objs4, Ren5, Alt6) :
                           a1 \in {"", "cancel", "setlive", "setdead", "setnil", "setlate"}, a2 \in {"", "cancel"}, a3 \in {"", "cancel", "setlive"} }
    [] Conf = "depth" -> { World(Q1, None, [Objs3 EXCEPT !["op"] = N(3), !["i"] = N(7)], Objs4, Ren5, Alt6) }
    [] Conf = "iface" -> { World(Abc("q") @@ "mil" :> R(Li(xs)) @@ "il" :> Li(xs) @@ "nml" :> Li(xs), None, Objs3, Objs4, Ren5, Alt6) :
                           xs \in SeqsTo({N(3), N(5), N(6), N(7), Nul, [k |-> "rogue"]}, 2) }
    [] Conf = "calls" -> { World(Q1, Abc("mu") @@ "m" :> R(L("x")) @@ "mo" :> R(N(3)) @@ "ml" :> R(Li(<<N(3), N(4)>>)) @@ "fo" :> fo @@ "i" :> N(5),
                                 Objs3, Objs4, Ren5, Alt6) : fo \in {Nul, R(N(3))} }
    [] Conf = "ops" -> { World(Abc("q") @@ "m" :> R(L("mq")), Abc("mu") @@ "m" :> R(L("mm")), None, None, None, None) }

\* leaf selections, selections with a selection set, type conditions, spread names, undefined things
Leafs == CASE Conf = "shape" -> {"a", "__typename"}
           [] Conf = "frag"  -> {"a"}
           [] Conf = "dir"   -> {"m"}
           [] Conf = "err"   -> {"a", "m", "ec", "nope"}
           [] Conf = "ctx"   -> {"a", "m", "me"}
           [] Conf = "depth" -> {"a", "m"}
           [] Conf = "iface" -> {"__typename", "a", "m"}
           [] Conf = "calls" -> {"m", "a"}
Nesting == CASE Conf = "shape" -> {"op", "opl", "oll", "x"}
             [] Conf = "frag"  -> {"op", "i"}
             [] Conf = "dir"   -> {"mo"}
             [] Conf = "err"   -> {"ml", "op", "mo", "td"}
             [] Conf = "ctx"   -> {"ml"}
             [] Conf = "depth" -> {"op", "ol", "i", "bv", "bl"}
             [] Conf = "iface" -> {"mil", "il", "mo", "nml"}
             [] Conf = "calls" -> {"mo", "ml", "fo", "i"}
Inlines == CASE Conf = "frag"  -> {"Obj", "Nd", ""}
             [] Conf = "dir"   -> {"Q"}
             [] Conf = "depth" -> {"Obj"}
             [] Conf = "iface" -> {"Obj", "Renamed", "Nd", "Nm", ""}
             [] OTHER -> {}
Spreads == CASE Conf = "frag" -> {"F", "G"}
             [] Conf = "dir"  -> {"F"}
             [] OTHER -> {}
FragTypes == CASE Conf = "frag" -> {"Obj", "Nd", "Q"} [] Conf = "dir" -> {"Q"} [] OTHER -> {"Obj"}
FragNames == CASE Conf = "frag" -> {"F"} [] Conf = "dir" -> {"F"} [] OTHER -> {}
D(n, v) == [name |-> n, val |-> v, var |-> IF v = "var" THEN "v" ELSE "", pos |-> "pre"]
Dirss == IF Conf = "dir"
         THEN {<<>>, <<D("skip", "T")>>, <<D("include", "F")>>, <<D("skip", "var")>>, <<D("include", "var")>>,
               <<D("include", "T"), D("skip", "T")>>, <<D("skip", "F"), D("include", "F")>>, <<D("include", "T"), D("skip", "F")>>}
         ELSE {<<>>}
DirssSpread == IF Conf = "dir" THEN {<<>>, <<D("skip", "T")>>, <<D("include", "var")>>} ELSE {<<>>}
V(d, g) == <<[name |-> "v", def |-> d, given |-> g]>>
Varss == IF Conf = "dir" THEN {V("", "T"), V("F", ""), V("", ""), V("T", "bad")} ELSE {<<>>}
Kinds == IF Conf = "calls" THEN {"query", "mutation"} ELSE {"query"}
Ctxs  == IF Conf = "ctx" THEN {"none", "live", "dead", "late"} ELSE {"none"}
Depths == IF Conf = "depth" THEN 1..4 ELSE {255}

-----------------------------------------------------------------------------
\* operations: every list of up to Size operations with distinct names, each selecting the resolver m under its own name
OpRec(j, kd, nm, ds, vs) == [kind |-> kd, name |-> nm, dirs |-> ds, selnr |-> j, pos |-> j, vars |-> vs]
OpNames == {"A", "AB", ""}
OpChoice(named) == {<<kd, nm, ds, vs>> : kd \in {"query", "mutation", "subscription"}, nm \in (IF named THEN OpNames ELSE {"", "A"}),
                                        ds \in {<<>>, <<D("skip", "F")>>}, vs \in {<<>>, V("T", ""), V("F", "")}}
OpLists(size) == UNION { {l \in [1..n -> OpChoice(n > 1)] : \A i, j \in 1..n : i # j => l[i][2] # l[j][2]} : n \in 0..size }
MSel(j, vs) == << [k |-> "f", alias |-> "o" \o ToString(j), name |-> "m", args |-> "none", n |-> "0", selnr |-> 0,
                   dirs |-> IF vs = <<>> THEN <<>> ELSE <<D("include", "var")>>] >>
InitOps ==
  /\ Conf = "ops"
  /\ b \in { [ world |-> w, ops |-> [j \in DOMAIN l |-> OpRec(j, l[j][1], l[j][2], l[j][3], l[j][4])],
               frags |-> <<[name |-> "A", on |-> "Q", selnr |-> Len(l) + 1, pos |-> fp]>>,
               sels |-> Append([j \in DOMAIN l |-> MSel(j, l[j][4])], MSel(0, <<>>)),
               target |-> t, maxdepth |-> 255, tracing |-> FALSE, ctx |-> "none", values |-> E!NoValues, open |-> <<>>, tys |-> <<>>, left |-> 0, ready |-> TRUE ]
             : w \in WorldsOf, l \in OpLists(Size), t \in {"", "A", "AB", "Z"}, fp \in {0, 9} }
  /\ b.target # "" \/ Len(b.ops) <= 1
  /\ m = E!InitM

Init == IF Conf = "ops" THEN InitOps ELSE
  /\ b \in { [ world |-> w, ops |-> <<[kind |-> kd, name |-> "", dirs |-> <<>>, selnr |-> 1, pos |-> 0, vars |-> vs]>>,
               frags |-> <<>>, sels |-> << <<>> >>, target |-> "", maxdepth |-> d, tracing |-> FALSE, ctx |-> cx, values |-> E!NoValues,
               open |-> <<1>>, tys |-> <<IF kd = "query" THEN "Q" ELSE "M">>, left |-> Size, ready |-> FALSE ]
             : w \in WorldsOf, kd \in Kinds, vs \in Varss, cx \in Ctxs, d \in Depths }
  /\ m = E!InitM

TopNr == b.open[Len(b.open)]
TopTy == b.tys[Len(b.tys)]
Building == ~b.ready /\ b.open # <<>>
\* response names are distinct inside a selection set
Used(nr) == {b.sels[nr][j].alias : j \in DOMAIN b.sels[nr]}
AliasFor(name) == IF name \in Used(TopNr) THEN "k" \o ToString(Len(b.sels[TopNr])) ELSE name
Item(k, name, ds, sn) == [k |-> k, alias |-> IF k = "f" THEN AliasFor(name) ELSE "", name |-> name, args |-> "none", n |-> "0", dirs |-> ds, selnr |-> sn]
FieldsOf(ty) == IF ty \in {"Nd", "Nm"} THEN {"a", "m", "mo"} ELSE DOMAIN Fields[ty]
RECURSIVE Target(_)
Target(t) == CASE t.k \in {"obj", "iface"} -> t.n [] t.k = "leaf" -> "Obj" [] OTHER -> Target(t.e)
TargetOf(ty, name) == IF ty \in {"Nd", "Nm"} THEN "Obj" ELSE Target(Fields[ty][name])

AddLeaf ==
  /\ Building /\ b.left > 0
  /\ \E name \in Leafs, ds \in Dirss :
       /\ name \in FieldsOf(TopTy) \cup {"__typename", "nope"}
       /\ b' = [b EXCEPT !.sels[TopNr] = Append(@, Item("f", name, ds, 0)), !.left = @ - 1]
  /\ UNCHANGED m
OpenField ==
  /\ Building /\ b.left > 1
  /\ \E name \in Nesting \cap FieldsOf(TopTy), ds \in (IF Conf = "dir" THEN DirssSpread ELSE Dirss) :
       b' = [b EXCEPT !.sels = Append([@ EXCEPT ![TopNr] = Append(@, Item("f", name, ds, Len(b.sels) + 1))], <<>>),
                      !.open = Append(@, Len(b.sels) + 1), !.tys = Append(@, TargetOf(TopTy, name)), !.left = @ - 1]
  /\ UNCHANGED m
OpenInline ==
  /\ Building /\ b.left > 1
  /\ \E on \in Inlines, ds \in DirssSpread :
       b' = [b EXCEPT !.sels = Append([@ EXCEPT ![TopNr] = Append(@, Item("i", on, ds, Len(b.sels) + 1))], <<>>),
                      !.open = Append(@, Len(b.sels) + 1), !.tys = Append(@, IF on = "" THEN TopTy ELSE on), !.left = @ - 1]
  /\ UNCHANGED m
AddSpread ==
  /\ Building /\ b.left > 0
  /\ \E name \in Spreads, ds \in DirssSpread :
       b' = [b EXCEPT !.sels[TopNr] = Append(@, Item("s", name, ds, 0)), !.left = @ - 1]
  /\ UNCHANGED m
Close ==
  /\ Building /\ b.sels[TopNr] # <<>>
  /\ b' = [b EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.tys = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED m
\* after the operation: the fragment definitions
OpenFragment ==
  /\ ~b.ready /\ b.open = <<>> /\ b.left > 0
  /\ \E name \in FragNames, on \in FragTypes :
       /\ \A j \in DOMAIN b.frags : b.frags[j].name # name
       /\ b' = [b EXCEPT !.frags = Append(@, [name |-> name, on |-> on, selnr |-> Len(b.sels) + 1, pos |-> Len(b.frags) + 1]),
                         !.sels = Append(@, <<>>), !.open = <<Len(b.sels) + 1>>, !.tys = <<on>>]
  /\ UNCHANGED m
Ready ==
  /\ ~b.ready /\ b.open = <<>>
  /\ b' = [b EXCEPT !.ready = TRUE]
  /\ UNCHANGED m

Run == b.ready /\ E!Step /\ UNCHANGED b

Case == [world |-> b.world, ops |-> b.ops, frags |-> b.frags, sels |-> b.sels, target |-> b.target,
         maxdepth |-> b.maxdepth, tracing |-> b.tracing, ctx |-> b.ctx, values |-> b.values]
Emit ==
  /\ m.pc = "done"
  /\ PrintT("CASE " \o ToJson(Case))
  /\ m' = [m EXCEPT !.pc = "emitted"] /\ UNCHANGED b
Stop == (m.pc = "emitted") /\ UNCHANGED <<b, m>>

Next == AddLeaf \/ OpenField \/ OpenInline \/ AddSpread \/ Close \/ OpenFragment \/ Ready \/ Run \/ Emit \/ Stop
Spec == Init /\ [][Next]_<<b, m>>

-----------------------------------------------------------------------------
(* An independent description of the answer of a request without errors:    *)
(* no machine, no frames, only recursion over the selection and the value.  *)
RECURSIVE DSel(_, _, _), DItem(_, _, _), DVal(_, _, _), DList(_, _, _, _)
DItem(it, ty, node) ==
  IF E!Dirs(it, CASE it.k = "f" -> "field" [] it.k = "s" -> "spread" [] it.k = "i" -> "inline") = "skip" THEN <<>>
  ELSE CASE it.k = "i" -> IF E!Applies(ty, it.name) THEN DSel(it.selnr, ty, node) ELSE <<>>
         [] it.k = "s" -> LET fr == b.frags[E!FragIdx(it.name)] IN IF E!Applies(ty, fr.on) THEN DSel(fr.selnr, ty, node) ELSE <<>>
         [] it.k = "f" -> <<"k:" \o it.alias>> \o
              (IF it.name = "__typename" THEN <<"s:" \o ty>>
               ELSE LET t == Fields[ty][it.name] IN DVal(t, E!FieldV(node, it.name, t), it))
DSel(nr, ty, node) ==
  LET RECURSIVE Cat(_)
      Cat(j) == IF j > Len(b.sels[nr]) THEN <<>> ELSE DItem(b.sels[nr][j], ty, node) \o Cat(j + 1)
  IN Cat(1)
DList(t, xs, j, it) == IF j > Len(xs) THEN <<>> ELSE DVal(t, xs[j], it) \o DList(t, xs, j + 1, it)
DVal(t, v, it) ==
  CASE v.k = "null" -> <<"null">>
    [] v.k = "rogue" -> <<"null">>
    [] t.k = "leaf" -> <<E!Tok(t.n, v.s)>>
    [] t.k = "ptr" -> DVal(t.e, v, it)
    [] t.k = "list" -> <<"[">> \o DList(t.e, v.xs, 1, it) \o <<"]">>
    [] t.k = "obj" -> <<"{">> \o DSel(it.selnr, t.n, v.n) \o <<"}">>
    [] t.k = "iface" /\ t.n \notin E!Impl[E!NodeTy(v.n)] -> <<"null">>
    [] t.k = "iface" -> <<"{">> \o DSel(it.selnr, E!NodeTy(v.n), v.n) \o <<"}">>
    [] t.k \in {"meth", "func"} -> DVal(t.e, v.v, it)

Mirror == m.pc = "done" /\ Conf # "ops" /\ m.errs = <<>> /\ ~m.crash =>
            m.out = <<"{">> \o DSel(b.ops[1].selnr, E!Root.ty, E!Root.node) \o <<"}">>
\* once the context of the request has ended no resolver adds anything but its error
CancelStops == m.pc = "done" /\ b.ctx \in {"dead", "late"} =>
  \A j \in DOMAIN m.calls : m.ctxs[j] = "orig" /\ j < Len(m.ctxs) /\ m.ctxs[j + 1] = "orig" => \E l \in DOMAIN m.errs : m.errs[l].path = SubSeq(m.calls[j], 4, Len(m.calls[j]))
\* every resolver error of a selected resolver is in the list exactly once
\* without an operation, or with one that is refused, nothing runs
OpsInv == m.pc = "done" /\ Conf = "ops" =>
  /\ \A j \in DOMAIN m.calls : m.calls[j][4] = "o" \o ToString(E!OpIdx)
  /\ (m.errs # <<>>) = (E!NoOp # "run")
  /\ (E!NoOp # "run" => m.calls = <<>>)
GenInv == m.pc = "emitted" \/ (E!ExecInv /\ Mirror /\ CancelStops /\ OpsInv)
=============================================================================
