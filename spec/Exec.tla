-------------------------------- MODULE Exec --------------------------------
(* The executor: how one operation of an already parsed document is resolved *)
(* against a world of Go values.  A small step machine; every step is one    *)
(* named action.  C is the case (document, variables, world, options) and is *)
(* never changed, m is the machine.                                          *)
(*                                                                           *)
(* The machine is deterministic: for a case there is exactly one behaviour,  *)
(* which is what ExecTrace compares with what the real code did, and what    *)
(* ExecGen enumerates for all small documents.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, ExecTypes

VARIABLES C, m
\* Fields of ExecTypes, given by the module that instantiates this one: there it is computed once
CONSTANT Table

-----------------------------------------------------------------------------
(* The world                                                                 *)

\* request values the caller passes in; "-" is a key that is not set
NoValues == [k1 |-> "-", k2 |-> "-"]
NullV  == [k |-> "null"]
LeafV(s) == [k |-> "leaf", s |-> s]


NodeTy(n) == C.world.nodes[n].ty

\* what the Go value holds when the world says nothing
RECURSIVE ZeroV(_)
ZeroV(t) == CASE t.k = "leaf" -> (CASE t.n = "Int" -> LeafV("0")
                                    [] t.n = "Color" -> NullV          \* no member
                                    [] t.n = "Boolean" -> LeafV("false")
                                    [] t.n \in {"Float", "ID"} -> LeafV("0")
                                    [] t.n = "Time" -> LeafV("0001-01-01T00:00:00.000Z")
                                    [] OTHER -> LeafV(""))
              [] t.k = "meth" -> [k |-> "res", err |-> "", act |-> "", v |-> ZeroV(t.e)]
              [] OTHER -> NullV

FieldV(node, f, t) ==
  LET vals == C.world.nodes[node].vals IN
  IF f \in DOMAIN vals THEN vals[f] ELSE ZeroV(t)

-----------------------------------------------------------------------------
(* Document                                                                  *)

\* the operation that is executed, 0 when there is none
OpIdx ==
  IF C.target # "" THEN
    LET S0 == {j \in DOMAIN C.ops : C.ops[j].name = C.target} IN
    IF S0 = {} THEN 0 ELSE CHOOSE j \in S0 : \A l \in S0 : j <= l
  ELSE Len(C.ops)   \* only one without a target

FragIdx(name) ==
  LET S0 == {j \in DOMAIN C.frags : C.frags[j].name = name} IN
  IF S0 = {} THEN 0 ELSE CHOOSE j \in S0 : TRUE

\* an inline fragment without a type condition always applies
Applies(ty, on) == on = "" \/ on = ty \/ on \in Impl[ty]

\* Directives: keep, skip or error
\* the value of a condition: "T", "F", "absent" or "error"
Vars == C.ops[OpIdx].vars      \* only evaluated when an operation runs
VarVal(name) ==
  LET S0 == {j \in DOMAIN Vars : Vars[j].name = name} IN
  IF S0 = {} THEN "error"
  ELSE LET v == Vars[CHOOSE j \in S0 : TRUE] IN
       IF v.given = "bad" THEN "error"       \* the request's variables are not a JSON object
       ELSE IF v.given = "null" THEN "F"     \* the zero value
       ELSE IF v.given # "" THEN v.given
       ELSE IF v.def # "" THEN v.def
       ELSE "error"
CondVal(d) ==
  CASE d.val \in {"T", "F"} -> d.val
    [] d.val = "none" -> "F"
    [] OTHER -> VarVal(d.var)
DirRes(d, loc) ==
  CASE d.name = "skip" -> LET v == CondVal(d) IN IF v = "error" THEN "crit" ELSE IF v = "T" THEN "skip" ELSE "keep"
    [] d.name = "include" -> LET v == CondVal(d) IN IF v = "error" THEN "crit" ELSE IF v = "F" THEN "skip" ELSE "keep"
    [] d.name = "tag" /\ loc = "field" -> LET v == CondVal(d) IN IF v = "error" THEN "crit" ELSE IF v = "T" THEN "skip" ELSE "keep"
    [] d.name = "spr" /\ loc = "spread" -> LET v == CondVal(d) IN IF v = "error" THEN "crit" ELSE IF v = "T" THEN "skip" ELSE "keep"
    [] d.name = "inl" /\ loc = "inline" -> LET v == CondVal(d) IN IF v = "error" THEN "crit" ELSE IF v = "T" THEN "skip" ELSE "keep"
    [] d.name = "hide" -> IF d.val = "none" THEN "skip" ELSE "crit"
    [] d.name = "put" -> IF d.val = "none" THEN "keep" ELSE "crit"
    [] OTHER -> "crit"
RECURSIVE DirsFrom(_, _, _)
DirsFrom(ds, j, loc) ==
  IF j > Len(ds) THEN "keep"
  ELSE LET r == DirRes(ds[j], loc) IN IF r = "keep" THEN DirsFrom(ds, j + 1, loc) ELSE r
IsPre(d) == d.pos # "post"
IsPost(d) == d.pos = "post"
DirSeq(it) == SelectSeq(it.dirs, IsPre) \o SelectSeq(it.dirs, IsPost)
Dirs(it, loc) == DirsFrom(DirSeq(it), 1, loc)
\* the directive @put reads the request values and then sets one of them: the values and readings after the directives of an item
RECURSIVE PutFrom(_, _, _, _)
PutFrom(ds, j, loc, acc) ==
  IF j > Len(ds) \/ DirRes(ds[j], loc) # "keep" THEN acc
  ELSE PutFrom(ds, j + 1, loc, IF ds[j].name = "put" THEN [vals |-> [acc.vals EXCEPT !.k1 = "d"], reads |-> Append(acc.reads, acc.vals)] ELSE acc)
HasPut(it) == \E j \in DOMAIN it.dirs : it.dirs[j].name = "put"
\* the machine once the directives of the item at hand have run
Eff(it, loc) ==
  IF it.dirs = <<>> \/ ~HasPut(it) THEN m
  ELSE LET e == PutFrom(DirSeq(it), 1, loc, [vals |-> m.vals, reads |-> m.reads]) IN [m EXCEPT !.vals = e.vals, !.reads = e.reads]

-----------------------------------------------------------------------------
(* The machine                                                               *)

Root == IF OpIdx # 0 /\ C.ops[OpIdx].kind = "mutation" THEN [ty |-> "M", node |-> 2] ELSE [ty |-> "Q", node |-> 1]

NoOp == IF OpIdx = 0 THEN "none"
        ELSE IF C.ops[OpIdx].kind = "subscription" \/ C.ops[OpIdx].dirs # <<>> THEN "refused"
        ELSE "run"

InitM ==
  [ st |-> <<>>, out |-> <<>>, errs |-> <<>>, calls |-> <<>>, ctxs |-> <<>>, trace |-> <<>>,
    path |-> <<>>, crit |-> FALSE, active |-> {}, tdepth |-> 0,
    cur |-> IF C.ctx = "none" THEN "none" ELSE "orig", odead |-> C.ctx \in {"dead", "late"},
    pc |-> "start", crash |-> FALSE,
    vals |-> C.values, reads |-> <<>>, args |-> <<>> ]

Top == m.st[Len(m.st)]
Pop == SubSeq(m.st, 1, Len(m.st) - 1)
SetTop(fr) == [m.st EXCEPT ![Len(m.st)] = fr]
Push(fr) == Append(m.st, fr)
LibErr(p) == [path |-> p, msg |-> "*"]

SelFrame(kind, nr, ty, node, depth, fi) ==
  [k |-> "sel", kind |-> kind, nr |-> nr, pos |-> 1, ty |-> ty, node |-> node, depth |-> depth, fi |-> fi]
\* args: the field's arguments are not consumed yet; nr, pos: the selection item
ValFrame(t, v, ty, node, depth, nr, pos, args) ==
  [k |-> "val", t |-> t, v |-> v, ty |-> ty, node |-> node, depth |-> depth, nr |-> nr, pos |-> pos, args |-> args]

Running == m.pc = "run" /\ ~m.crash
Item(fr) == C.sels[fr.nr][fr.pos]

Start ==
  /\ m.pc = "start"
  /\ m' = IF NoOp = "run"
          THEN [m EXCEPT !.pc = "run", !.out = <<"{">>,
                         !.st = <<SelFrame("root", C.ops[OpIdx].selnr, Root.ty, Root.node, 0, 0)>>]
          ELSE [m EXCEPT !.pc = "done", !.out = <<"{", "}">>, !.errs = <<LibErr(<<>>)>>]

\* a selection set ends, either completely resolved or cut off by a request error
SelEnd ==
  /\ Running /\ Top.k = "sel"
  /\ m.crit \/ Top.pos > Len(C.sels[Top.nr])
  /\ m' = CASE Top.kind = "root" -> [m EXCEPT !.st = Pop, !.out = Append(@, "}"), !.pc = "done"]
            [] Top.kind = "obj"  -> [m EXCEPT !.st = Pop, !.out = Append(@, "}")]
            [] Top.kind = "frag" -> [m EXCEPT !.st = Pop, !.active = @ \ {Top.fi}]
            [] Top.kind = "inline" -> [m EXCEPT !.st = Pop]

AtItem(k) == Running /\ Top.k = "sel" /\ ~m.crit /\ Top.pos <= Len(C.sels[Top.nr]) /\ Item(Top).k = k
Next1 == [Top EXCEPT !.pos = @ + 1]

\* a field that a directive takes out, or of which a directive is wrong
FieldExcluded ==
  /\ AtItem("f") /\ Dirs(Item(Top), "field") # "keep"
  /\ m' = IF Dirs(Item(Top), "field") = "skip"
          THEN [Eff(Item(Top), "field") EXCEPT !.st = SetTop(Next1)]
          ELSE [Eff(Item(Top), "field") EXCEPT !.st = SetTop(Next1), !.crit = TRUE, !.errs = Append(@, LibErr(Append(m.path, Item(Top).alias)))]

FieldKept(it) == AtItem("f") /\ it = Item(Top) /\ Dirs(it, "field") = "keep"
HasSel(it) == it.selnr # 0

FieldTypename ==
  LET it == Item(Top) IN
  /\ AtItem("f") /\ FieldKept(it) /\ it.name = "__typename"
  /\ m' = IF HasSel(it)
          THEN [Eff(Item(Top), "field") EXCEPT !.st = SetTop(Next1), !.out = @ \o <<"k:" \o it.alias, "null">>, !.crit = TRUE,
                         !.errs = Append(@, LibErr(Append(m.path, it.alias)))]
          ELSE [Eff(Item(Top), "field") EXCEPT !.st = SetTop(Next1), !.out = @ \o <<"k:" \o it.alias, "s:" \o Top.ty>>]

FieldUnknown ==
  LET it == Item(Top) IN
  /\ AtItem("f") /\ FieldKept(it) /\ it.name # "__typename" /\ it.name \notin DOMAIN Table[Top.ty]
  /\ m' = [Eff(Item(Top), "field") EXCEPT !.st = SetTop(Next1), !.out = @ \o <<"k:" \o it.alias, "null">>, !.crit = TRUE,
                    !.errs = Append(@, LibErr(Append(m.path, it.alias)))]

FieldBegin ==
  LET it == Item(Top) IN
  /\ AtItem("f") /\ FieldKept(it) /\ it.name # "__typename" /\ it.name \in DOMAIN Table[Top.ty]
  /\ LET t == Table[Top.ty][it.name]
         v == FieldV(Top.node, it.name, t)
     IN m' = [Eff(Item(Top), "field") EXCEPT
         !.st = SetTop(Next1) \o
                << [k |-> "end", parent |-> Top.ty, field |-> it.name, ret |-> TypeStr(t)],
                   ValFrame(t, v, Top.ty, Top.node, Top.depth, Top.nr, Top.pos, it.args # "none") >>,
         !.out = Append(@, "k:" \o it.alias),
         !.tdepth = @ + 1,
         !.path = Append(@, it.alias)]

FieldEnd ==
  /\ Running /\ Top.k = "end"
  /\ m' = [m EXCEPT
         !.st = Pop,
         !.path = SubSeq(@, 1, Len(@) - 1),
         !.tdepth = @ - 1,
         !.trace = IF C.tracing
                   THEN Append(@, [path |-> m.path, parent |-> Top.parent, field |-> Top.field, ret |-> Top.ret, d |-> m.tdepth])
                   ELSE @]

\* ---- fragments
SpreadExcluded ==
  /\ Running /\ (AtItem("s") \/ AtItem("i"))
  /\ LET it == Item(Top)
         r == Dirs(it, IF it.k = "s" THEN "spread" ELSE "inline")
     IN /\ r # "keep"
        /\ m' = IF r = "skip" THEN [Eff(it, IF it.k = "s" THEN "spread" ELSE "inline") EXCEPT !.st = SetTop(Next1)]
                ELSE [Eff(it, IF it.k = "s" THEN "spread" ELSE "inline") EXCEPT !.st = SetTop(Next1), !.crit = TRUE, !.errs = Append(@, LibErr(m.path))]

SpreadInline ==
  LET it == Item(Top) IN
  /\ AtItem("i") /\ Dirs(it, "inline") = "keep"
  /\ m' = IF Applies(Top.ty, it.name)
          THEN [Eff(it, "inline") EXCEPT !.st = Append(SetTop(Next1), SelFrame("inline", it.selnr, Top.ty, Top.node, Top.depth, 0))]
          ELSE [Eff(it, "inline") EXCEPT !.st = SetTop(Next1)]

SpreadNamed ==
  LET it == Item(Top)
      fi == FragIdx(it.name) IN
  /\ AtItem("s") /\ Dirs(it, "spread") = "keep"
  /\ m' = IF fi = 0
          THEN [Eff(it, "spread") EXCEPT !.st = SetTop(Next1), !.crit = TRUE, !.errs = Append(@, LibErr(m.path))]
          ELSE IF ~Applies(Top.ty, C.frags[fi].on)
          THEN [Eff(it, "spread") EXCEPT !.st = SetTop(Next1)]
          ELSE IF fi \in m.active
          THEN [Eff(it, "spread") EXCEPT !.st = SetTop(Next1), !.crit = TRUE, !.errs = Append(@, LibErr(m.path))]
          ELSE [Eff(it, "spread") EXCEPT !.st = Append(SetTop(Next1), SelFrame("frag", C.frags[fi].selnr, Top.ty, Top.node, Top.depth, fi)),
                         !.active = @ \cup {fi}]

\* ---- values
AtVal(ks) == Running /\ Top.k = "val" /\ Top.t.k \in ks
Write(tok) == [m EXCEPT !.st = Pop, !.out = Append(@, tok)]
WriteErr == [m EXCEPT !.st = Pop, !.out = Append(@, "null"), !.crit = TRUE, !.errs = Append(@, LibErr(m.path))]
RECURSIVE IsMeth(_)
IsMeth(t) == CASE t.k \in {"meth", "func"} -> TRUE [] t.k = "ptr" -> IsMeth(t.e) [] OTHER -> FALSE
BadArgs == Top.args /\ ~IsMeth(Top.t)
TopItem == C.sels[Top.nr][Top.pos]

ValBadArgs ==
  /\ Running /\ Top.k = "val" /\ BadArgs
  /\ m' = WriteErr

\* a number, a boolean or a string in the response
Tok(n, s) == (CASE n \in {"Int", "Float"} -> "n:" [] n = "Boolean" -> "b:" [] OTHER -> "s:") \o s
ValLeaf ==
  /\ AtVal({"leaf"}) /\ ~BadArgs
  /\ m' = IF HasSel(TopItem) THEN WriteErr
          ELSE IF Top.v.k = "null" THEN Write("null")     \* an enum value that is no member
          ELSE Write(Tok(Top.t.n, Top.v.s))

ValPtr ==
  /\ AtVal({"ptr"}) /\ ~BadArgs
  /\ m' = IF Top.v.k = "null" THEN Write("null")
          ELSE [m EXCEPT !.st = SetTop([Top EXCEPT !.t = Top.t.e])]

ValList ==
  /\ AtVal({"list"}) /\ ~BadArgs
  /\ m' = IF Top.v.k = "null" THEN Write("null")
          ELSE [m EXCEPT !.out = Append(@, "["),
                         !.st = SetTop([k |-> "list", j |-> 0, fr |-> [Top EXCEPT !.t = Top.t.e]])]

\* the next element; a request error inside an element stays inside that element
ListStep ==
  /\ Running /\ Top.k = "list"
  /\ LET xs == Top.fr.v.xs
         p == IF Top.j > 0 THEN SubSeq(m.path, 1, Len(m.path) - 1) ELSE m.path
     IN m' = IF Top.j >= Len(xs)
             THEN [m EXCEPT !.st = Pop, !.out = Append(@, "]"), !.path = p, !.crit = FALSE]
             ELSE [m EXCEPT !.st = Append(SetTop([Top EXCEPT !.j = @ + 1]), [Top.fr EXCEPT !.v = xs[Top.j + 1]]),
                            !.path = Append(p, "#" \o ToString(Top.j)),
                            !.crit = FALSE]

ValObj ==
  /\ AtVal({"obj"}) /\ ~BadArgs
  /\ m' = IF ~HasSel(TopItem) \/ Top.depth + 1 >= C.maxdepth THEN WriteErr
          ELSE [m EXCEPT !.out = Append(@, "{"),
                         !.st = SetTop(SelFrame("obj", TopItem.selnr, Top.t.n, Top.v.n, Top.depth + 1, 0))]

ValIface ==
  /\ AtVal({"iface"}) /\ ~BadArgs
  /\ m' = IF ~HasSel(TopItem) THEN WriteErr
          ELSE IF Top.v.k # "node" \/ Top.t.n \notin Impl[NodeTy(Top.v.n)] THEN Write("null")     \* nil or not registered for this interface
          ELSE [m EXCEPT !.st = SetTop([Top EXCEPT !.t = O(NodeTy(Top.v.n))])]

ArgsOk == TopItem.args = "none" \/ (Top.t.arg /\ TopItem.args = IF TopItem.name = "h" THEN "h" ELSE "ok")
\* the context in force: none, live, orig (given by the caller: live, cancelled or after its deadline), dead, late (after its deadline)
\* or odd (has an error of its own)
Ended(mm) == mm.cur \in {"dead", "late", "odd"} \/ (mm.cur = "orig" /\ mm.odead)
CtxMsg(mm) == IF mm.cur = "late" \/ (mm.cur = "orig" /\ C.ctx = "late") THEN "context deadline exceeded"
              ELSE IF mm.cur = "odd" THEN "odd \"end\"\n" ELSE "context canceled"
\* an error without a text is an error
ErrText(e) == IF e = "(empty)" THEN "" ELSE e

\* a resolver runs: recorded, applies its side effect, and its outcome is taken over
ValCall ==
  /\ AtVal({"meth", "func"})
  /\ IF Top.t.k = "func" /\ Top.v.k = "null" THEN m' = Write("null")
     ELSE IF ~ArgsOk THEN m' = WriteErr
     ELSE
       LET it == TopItem
           r  == Top.v
           m1 == [m EXCEPT !.calls = Append(@, <<Top.ty, ToString(Top.node), it.name>> \o m.path),
                           !.ctxs = Append(@, m.cur),
                           !.reads = Append(@, m.vals),
                           !.args = IF it.name = "h" THEN Append(@, IF it.args = "none" THEN <<"S", "", "ID", "", "OS", "">> ELSE it.argv) ELSE @]
           m2 == CASE r.act = "cancel"  -> [m1 EXCEPT !.odead = m1.odead \/ C.ctx # "none"]
                   [] r.act = "setlive" -> [m1 EXCEPT !.cur = "live"]
                   [] r.act = "setdead" -> [m1 EXCEPT !.cur = "dead"]
                   [] r.act = "setlate" -> [m1 EXCEPT !.cur = "late"]
                   [] r.act = "setodd"  -> [m1 EXCEPT !.cur = "odd"]
                   [] r.act = "setnil"  -> [m1 EXCEPT !.cur = "none"]
                   [] r.act = "panic"   -> [m1 EXCEPT !.crash = TRUE]
                   [] r.act = "put1a"   -> [m1 EXCEPT !.vals.k1 = "a"]
                   [] r.act = "put1b"   -> [m1 EXCEPT !.vals.k1 = "b"]
                   [] r.act = "put2a"   -> [m1 EXCEPT !.vals.k2 = "a"]
                   [] r.act = "put1nil" -> [m1 EXCEPT !.vals.k1 = "nil"]   \* a key with nil is a key that is set
                   [] r.act = "put2nil" -> [m1 EXCEPT !.vals.k2 = "nil"]
                   [] OTHER -> m1
           m3 == IF r.err # "" /\ it.name \notin NoErrFields
                 THEN [m2 EXCEPT !.errs = Append(@, [path |-> m.path, msg |-> ErrText(r.err)])] ELSE m2
           v  == IF it.name \in {"g", "fg"} THEN LeafV(it.n)
                 ELSE r.v
       IN m' = IF m2.crash THEN [m2 EXCEPT !.pc = "done"]
               ELSE IF Ended(m3)
               THEN [m3 EXCEPT !.errs = Append(@, [path |-> m.path, msg |-> CtxMsg(m3)]), !.st = Pop, !.out = Append(@, "null")]
               ELSE [m3 EXCEPT !.st = SetTop([Top EXCEPT !.t = Top.t.e, !.v = v, !.args = FALSE])]

Step ==
  \/ Start \/ SelEnd \/ FieldExcluded \/ FieldTypename \/ FieldUnknown \/ FieldBegin \/ FieldEnd
  \/ SpreadExcluded \/ SpreadInline \/ SpreadNamed
  \/ ValBadArgs \/ ValLeaf \/ ValPtr \/ ValList \/ ListStep \/ ValObj \/ ValIface \/ ValCall

-----------------------------------------------------------------------------
(* What must hold in every state of the machine                              *)

Opened(t) == Cardinality({j \in DOMAIN m.out : m.out[j] = t})
Frames(k) == Cardinality({j \in DOMAIN m.st : m.st[j].k = k})
SelObjs == Cardinality({j \in DOMAIN m.st : m.st[j].k = "sel" /\ m.st[j].kind \in {"obj", "root"}})

\* every open object and list belongs to a frame: at the end the data is balanced
Balanced == m.pc # "start" /\ ~m.crash /\ NoOp = "run" =>
  /\ Opened("{") - Opened("}") = SelObjs
  /\ Opened("[") - Opened("]") = Frames("list")
\* nothing is open deeper than the limit
DepthBounded == \A j \in DOMAIN m.st : m.st[j].k = "sel" => m.st[j].depth < C.maxdepth \/ m.st[j].depth = 0
\* an error never points outside of the place being resolved
ErrPathsKnown == m.pc = "done" => \A j \in DOMAIN m.errs : Len(m.errs[j].path) < 100
\* resolvers of an ended context produce nothing
DoneClean == m.pc = "done" /\ ~m.crash => m.st = <<>> /\ m.path = <<>> /\ m.active = {}
CallsMatchCtxs == Len(m.calls) = Len(m.ctxs)

ExecInv == Balanced /\ DepthBounded /\ ErrPathsKnown /\ DoneClean /\ CallsMatchCtxs
=============================================================================
