------------------------------- MODULE Schema -------------------------------
(* From Go types to a GraphQL schema.  C is the definition (never changed),  *)
(* m the machine that walks over the types that can be reached.              *)
(*                                                                           *)
(* C.decls: the named Go types [n, k, ql, tgood, loc, under, fs, ms, impl,   *)
(*   members]; k: struct, iface, basic; ql: GraphQL name, tgood: it is one;  *)
(*   loc: declared inside of a function, where it may have the name of       *)
(*   another type; fs: fields; ms: the method set; impl: interfaces it is    *)
(*   registered for; members: registered members of an enum (none: not       *)
(*   registered)                                                             *)
(* C.q, C.mu: Go types given for queries and mutations                       *)
(* C.dirs: registered directives [n, locs, desc, params]                     *)
(* fields [go, low, up2, good, exp, emb, tag, t]: Go name, the same with its *)
(*   first letter lowered, is the second letter upper case, can it be written*)
(*   in a query, exported, embedded, tag = [has, name, chars, mods], without *)
(*   the blanks around its parts, which have no meaning                      *)
(* methods [go, res, low, up2, good, t]: t a function; the GraphQL name is   *)
(*   what follows Resolve (go, low, up2, good are about that part), res: is  *)
(*   it named Resolve followed by something that is not a lower case letter  *)
(* Go types [k, ...]: basic (b), named (n), ptr slice array (e), anon (fs),  *)
(*   func (params, outs, variadic), time, file, ctx, attrid, error, any, and *)
(*   what cannot be represented: map chan complex uintptr unsafe, loop*:    *)
(*   lists, pointers, functions that lead to themselves without a struct that*)
(*   has a name                                                              *)
(*                                                                           *)
(* GraphQL types: [k |-> "nn" or "list", e], [k |-> "O" "I" "N" "E" "S", n]. *)
(* Types that have no name in Go are named after the only place where they   *)
(* are used: @Type.field, @Type.field(argument).                             *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES C, m

NN(t) == [k |-> "nn", e |-> t]
List(t) == [k |-> "list", e |-> t]
Leaf(k, n) == [k |-> k, n |-> n]
Wrap(r) == IF r.nn THEN NN(r.t) ELSE r.t

\* results of looking at a type: ok, the type, can it not be null, types it leads to
No == [ok |-> FALSE, t |-> Leaf("S", ""), nn |-> FALSE, new |-> <<>>]
Yes(t, nn, new) == [ok |-> TRUE, t |-> t, nn |-> nn, new |-> new]

Decl(n) == C.decls[CHOOSE j \in DOMAIN C.decls : C.decls[j].n = n]
Impls(n) == {j \in DOMAIN C.decls : \E x \in DOMAIN C.decls[j].impl : C.decls[j].impl[x] = n}

IntKinds == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
ScalarOf(b, id) ==
  IF id THEN (IF b \in IntKinds \cup {"string"} THEN Yes(Leaf("S", "ID"), TRUE, <<>>) ELSE No)
  ELSE Yes(Leaf("S", IF b \in IntKinds THEN "Int" ELSE IF b \in {"float32", "float64"} THEN "Float" ELSE IF b = "bool" THEN "Boolean" ELSE "String"), TRUE, <<>>)

\* a type as a field or result
RECURSIVE OutType(_, _, _)
OutType(t, id, path) ==
  CASE t.k = "basic" -> ScalarOf(t.b, id)
    [] t.k = "named" ->
         LET d == Decl(t.n) IN
         IF d.k = "basic" THEN (IF d.members # <<>> THEN Yes(Leaf("E", d.n), TRUE, <<>>) ELSE ScalarOf(d.under, id))
         ELSE IF id THEN No
         ELSE IF d.k = "struct" THEN Yes(Leaf("O", d.ql), TRUE, <<[n |-> d.ql, d |-> d]>>)
         ELSE IF Impls(d.n) = {} THEN No ELSE Yes(Leaf("I", d.ql), FALSE, <<[n |-> d.ql, d |-> d]>>)
    [] t.k = "anon" -> IF id THEN No ELSE Yes(Leaf("O", path), TRUE, <<[n |-> path, d |-> [n |-> "", k |-> "struct", tgood |-> TRUE, fs |-> t.fs, ms |-> <<>>, impl |-> <<>>]]>>)
    [] t.k = "time" -> Yes(Leaf("S", "Time"), TRUE, <<>>)
    [] t.k = "ptr" -> LET r == OutType(t.e, id, path) IN [r EXCEPT !.nn = FALSE]
    [] t.k \in {"slice", "array"} -> LET r == OutType(t.e, FALSE, path) IN IF r.ok THEN Yes(List(Wrap(r)), FALSE, r.new) ELSE No
    [] OTHER -> No

\* a type as an argument or input field; Taken: names of the object types
RECURSIVE InType(_, _, _, _)
InType(t, id, path, Taken) ==
  CASE t.k = "basic" -> ScalarOf(t.b, id)
    [] t.k = "named" ->
         LET d == Decl(t.n)
             n == IF d.k = "struct" /\ d.ql \in Taken THEN d.ql \o "__input" ELSE IF d.k = "struct" THEN d.ql ELSE ""
         IN
         IF d.k = "basic" THEN (IF d.members # <<>> THEN Yes(Leaf("E", d.n), TRUE, <<>>) ELSE ScalarOf(d.under, id))
         ELSE IF d.k = "struct" /\ d.tgood THEN Yes(Leaf("N", n), TRUE, <<[n |-> n, go |-> d.n, fs |-> d.fs]>>)
         ELSE No
    [] t.k = "anon" -> Yes(Leaf("N", path), TRUE, <<[n |-> path, go |-> "", fs |-> t.fs]>>)
    [] t.k = "time" -> Yes(Leaf("S", "Time"), TRUE, <<>>)
    [] t.k = "ptr" -> IF t.e.k = "file" THEN Yes(Leaf("S", "File"), FALSE, <<>>) ELSE LET r == InType(t.e, id, path, Taken) IN [r EXCEPT !.nn = FALSE]
    [] t.k = "slice" -> LET r == InType(t.e, FALSE, path, Taken) IN IF r.ok THEN Yes(List(Wrap(r)), FALSE, r.new) ELSE No
    [] OTHER -> No

-----------------------------------------------------------------------------
(* Names and tags                                                            *)

Letter(c) == c \in 65..90 \/ c \in 97..122
GoodName(cs) == cs # <<>> /\ Letter(cs[1]) /\ \A j \in DOMAIN cs : Letter(cs[j]) \/ (j > 1 /\ (cs[j] \in 48..57 \/ cs[j] = 95))
IsIdMod(x) == x \in {"id", "ID", "Id", "iD"}
\* ign, bad, name (the one given), id
TagOf(f) ==
  IF ~f.tag.has THEN [ign |-> FALSE, bad |-> ~f.good, id |-> FALSE, name |-> ""]
  ELSE IF f.tag.name = "-" THEN [ign |-> TRUE, bad |-> FALSE, id |-> FALSE, name |-> ""]
  ELSE [ign |-> FALSE,
        bad |-> (f.tag.name # "" /\ ~GoodName(f.tag.chars)) \/ (f.tag.name = "" /\ ~f.good) \/ \E j \in DOMAIN f.tag.mods : ~IsIdMod(f.tag.mods[j]),
        id |-> \E j \in DOMAIN f.tag.mods : IsIdMod(f.tag.mods[j]),
        name |-> f.tag.name]
NameOf(f) == IF f.up2 THEN f.go ELSE f.low
FieldName(f) == IF TagOf(f).name # "" THEN TagOf(f).name ELSE NameOf(f)
LeftOut(f) == f.emb \/ ~f.exp \/ TagOf(f).ign

-----------------------------------------------------------------------------
(* Functions: what they give back, and what their parameters are             *)
Data(outs) == {j \in DOMAIN outs : outs[j].k \notin {"attrid", "error"}}
Errors(outs) == {j \in DOMAIN outs : outs[j].k = "error"}
FuncOut(f, id, path) ==
  IF f.variadic \/ Cardinality(Data(f.outs)) # 1 \/ Cardinality(Errors(f.outs)) > 1 THEN No
  ELSE OutType(f.outs[CHOOSE j \in Data(f.outs) : TRUE], id \/ \E j \in DOMAIN f.outs : f.outs[j].k = "attrid", path)

\* fields of an object or interface: [n, ty, params] or a refusal
FieldsOf(p) ==
  LET fs == IF p.d.k = "struct" THEN SelectSeq(p.d.fs, LAMBDA f : ~LeftOut(f)) ELSE <<>>
      ms == SelectSeq(p.d.ms, LAMBDA x : x.res)
      one(f) ==
        LET path == "@" \o p.n \o "." \o FieldName(f)
            r == IF TagOf(f).bad THEN No ELSE IF f.t.k = "func" THEN [FuncOut(f.t, TagOf(f).id, path) EXCEPT !.nn = FALSE] ELSE OutType(f.t, TagOf(f).id, path)
        IN [n |-> FieldName(f), r |-> r, params |-> IF f.t.k = "func" THEN f.t.params ELSE <<>>]
      meth(x) == [n |-> NameOf(x), r |-> IF ~x.good THEN No ELSE FuncOut(x.t, FALSE, "@" \o p.n \o "." \o NameOf(x)), params |-> x.t.params]
  IN [j \in 1..(Len(fs) + Len(ms)) |-> IF j <= Len(fs) THEN one(fs[j]) ELSE meth(ms[j - Len(fs)])]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE ByName(_)
ByName(ns) == IF ns = <<>> THEN <<>> ELSE <<[n |-> Decl(Head(ns)).ql, d |-> Decl(Head(ns))]>> \o ByName(Tail(ns))

\* arguments: of all parameters that are structs
ParamFields(t) == IF t.k = "anon" THEN t.fs ELSE Decl(t.n).fs
IsCtx(t) == t.k = "ptr" /\ t.e.k = "ctx"
IsArgs(t) == t.k = "anon" \/ (t.k = "named" /\ Decl(t.n).k = "struct")
ArgsOf(owner, params, Taken) ==
  LET fs == Flat([j \in DOMAIN params |-> IF IsArgs(params[j]) THEN SelectSeq(ParamFields(params[j]), LAMBDA f : ~LeftOut(f)) ELSE <<>>])
  IN [ ok |-> \A j \in DOMAIN params : IsCtx(params[j]) \/ IsArgs(params[j]),
       as |-> [j \in DOMAIN fs |-> [n |-> FieldName(fs[j]),
                 r |-> IF TagOf(fs[j]).bad THEN No ELSE InType(fs[j].t, TagOf(fs[j]).id, owner \o "(" \o FieldName(fs[j]) \o ")", Taken)]] ]

-----------------------------------------------------------------------------
(* The machine                                                               *)
\* the query and the mutation are named structs, not the same one
Root(t) == t.k = "named" /\ Decl(t.n).k = "struct"
RootName(t) == Decl(t.n).ql

InitM == [pc |-> "start", todo |-> <<>>, types |-> {}, fns |-> <<>>, ins |-> <<>>, inputs |-> {}, dargs |-> {}]
Refuse == [InitM EXCEPT !.pc = "refused"]

Start ==
  /\ m.pc = "start"
  /\ m' = IF ~Root(C.q) \/ ~Root(C.mu) THEN Refuse
          ELSE IF C.q.n = C.mu.n THEN Refuse
          ELSE [m EXCEPT !.pc = "types", !.todo = <<[n |-> RootName(C.q), d |-> Decl(C.q.n)], [n |-> RootName(C.mu), d |-> Decl(C.mu.n)]>>]

\* the next type that can be reached
Visit ==
  /\ m.pc = "types" /\ m.todo # <<>>
  /\ LET p == Head(m.todo) IN
     IF ~p.d.tgood \/ \E x \in m.types : x.n = p.n /\ x.go # p.d.n THEN m' = Refuse
     ELSE IF \E x \in m.types : x.n = p.n THEN m' = [m EXCEPT !.todo = Tail(@)]
     ELSE LET fs == FieldsOf(p)
              impls == [j \in DOMAIN p.d.impl |-> p.d.impl[j]]
              poss == IF p.d.k = "iface" THEN Impls(p.d.n) ELSE {}
              possNew == Flat([j \in DOMAIN C.decls |-> IF j \in poss THEN <<[n |-> C.decls[j].ql, d |-> C.decls[j]]>> ELSE <<>>])
          IN m' = IF \E j \in DOMAIN fs : ~fs[j].r.ok THEN Refuse
                  ELSE [m EXCEPT !.todo = Tail(@) \o Flat([j \in DOMAIN fs |-> fs[j].r.new]) \o ByName(impls) \o possNew,
                                 !.types = @ \cup {[n |-> p.n, go |-> p.d.n, k |-> p.d.k, poss |-> {C.decls[j].ql : j \in poss},
                                                    ifaces |-> {Decl(impls[j]).ql : j \in DOMAIN impls},
                                                    fields |-> {[n |-> fs[j].n, ty |-> Wrap(fs[j].r)] : j \in DOMAIN fs}]},
                                 !.fns = @ \o [j \in DOMAIN fs |-> [ty |-> p.n, f |-> fs[j].n, params |-> fs[j].params]]]
TypesDone ==
  /\ m.pc = "types" /\ m.todo = <<>>
  /\ m' = [m EXCEPT !.pc = "args", !.fns = @ \o [j \in DOMAIN C.dirs |-> [ty |-> "@", f |-> C.dirs[j].n, params |-> C.dirs[j].params]]]

Taken == {x.n : x \in {y \in m.types : y.k = "struct"}}
\* the arguments of the next field
Args ==
  /\ m.pc = "args" /\ m.fns # <<>>
  /\ LET fn == Head(m.fns)
         a == ArgsOf(IF fn.ty = "@" THEN "@@" \o fn.f ELSE "@" \o fn.ty \o "." \o fn.f, fn.params, Taken)
         set == {[n |-> a.as[j].n, ty |-> Wrap(a.as[j].r)] : j \in DOMAIN a.as}
     IN m' = IF ~a.ok \/ \E j \in DOMAIN a.as : ~a.as[j].r.ok THEN Refuse
             ELSE [m EXCEPT !.fns = Tail(@), !.ins = @ \o Flat([j \in DOMAIN a.as |-> a.as[j].r.new]),
                            !.dargs = @ \cup {[ty |-> fn.ty, f |-> fn.f, args |-> set]}]
\* the fields of the next input type
Input ==
  /\ m.pc = "args" /\ m.fns = <<>> /\ m.ins # <<>>
  /\ LET p == Head(m.ins)
         fs == SelectSeq(p.fs, LAMBDA f : ~LeftOut(f))
         rs == [j \in DOMAIN fs |-> IF TagOf(fs[j]).bad THEN No ELSE InType(fs[j].t, TagOf(fs[j]).id, "@" \o p.n \o "." \o FieldName(fs[j]), Taken)]
     IN m' = IF \E x \in m.inputs : x.n = p.n /\ x.go # p.go THEN Refuse
             ELSE IF \E x \in m.inputs : x.n = p.n THEN [m EXCEPT !.ins = Tail(@)]
             ELSE IF \E j \in DOMAIN fs : ~rs[j].ok THEN Refuse
             ELSE [m EXCEPT !.ins = Tail(@) \o Flat([j \in DOMAIN fs |-> rs[j].new]),
                            !.inputs = @ \cup {[n |-> p.n, go |-> p.go, fields |-> {[n |-> FieldName(fs[j]), ty |-> Wrap(rs[j])] : j \in DOMAIN fs}]}]
\* a name stands for one type
Scalars == {"Boolean", "Int", "Float", "String", "ID", "File", "Time"}
Enums == {d \in {C.decls[j] : j \in DOMAIN C.decls} : d.k = "basic" /\ d.members # <<>>}
Clash ==
  LET o == {x.n : x \in m.types}  i == {x.n : x \in m.inputs}  e == {d.ql : d \in Enums} IN
  o \cap i # {} \/ (o \cup i) \cap (e \cup Scalars) # {}
Ready == m.pc = "args" /\ m.fns = <<>> /\ m.ins = <<>> /\ m' = IF Clash THEN Refuse ELSE [m EXCEPT !.pc = "accepted"]

Step == Start \/ Visit \/ TypesDone \/ Args \/ Input \/ Ready

-----------------------------------------------------------------------------
ArgsFor(ty, f) == (CHOOSE x \in m.dargs : x.ty = ty /\ x.f = f).args
RECURSIVE Base(_)
Base(t) == IF t.k \in {"nn", "list"} THEN Base(t.e) ELSE t
TypeNamed(n) == CHOOSE x \in m.types : x.n = n

\* does a value in a response have this type; shapes: null, list (xs), obj (n), int, float, str, bool
RECURSIVE Conforms(_, _)
Conforms(sh, t) ==
  IF t.k = "nn" THEN sh.k # "null" /\ Conforms(sh, t.e)
  ELSE IF sh.k = "null" THEN TRUE
  ELSE IF t.k = "list" THEN sh.k = "list" /\ \A j \in DOMAIN sh.xs : Conforms(sh.xs[j], t.e)
  ELSE IF t.k = "O" THEN sh.k = "obj" /\ sh.n = t.n
  ELSE IF t.k = "I" THEN sh.k = "obj" /\ sh.n \in TypeNamed(t.n).poss
  ELSE IF t.k = "E" THEN sh.k = "str"
  ELSE CASE t.n = "Int" -> sh.k = "int" [] t.n = "Float" -> sh.k \in {"int", "float"} [] t.n = "Boolean" -> sh.k = "bool" [] OTHER -> sh.k = "str"

SchemaInv ==
  m.pc = "accepted" =>
    LET tn == {x.n : x \in m.types}
        inn == {x.n : x \in m.inputs}
        en == {d.n : d \in Enums}
        Known(t) == LET b == Base(t) IN
          CASE b.k \in {"O", "I"} -> b.n \in tn [] b.k = "N" -> b.n \in inn [] b.k = "E" -> b.n \in en [] OTHER -> b.n \in Scalars
    IN
    \* every type that is named is there, names are not used twice
    /\ \A x \in m.types : \A f \in x.fields : Known(f.ty)
    /\ \A x \in m.inputs : \A f \in x.fields : Known(f.ty)
    /\ \A x \in m.dargs : \A a \in x.args : Known(a.ty)
    /\ Cardinality(tn) = Cardinality(m.types) /\ Cardinality(inn) = Cardinality(m.inputs) /\ tn \cap inn = {}
    \* interfaces and their implementations know each other, an object has the fields of its interfaces
    /\ \A x \in m.types : \A p \in x.poss : \E o \in m.types : o.n = p /\ x.n \in o.ifaces /\ \A f \in x.fields : \E g \in o.fields : g.n = f.n
    /\ \A x \in m.types : \A i \in x.ifaces : \E o \in m.types : o.n = i /\ x.n \in o.poss
    \* output types have no input types in them and the other way around
    /\ \A x \in m.types : \A f \in x.fields : Base(f.ty).k # "N"
    /\ \A x \in m.inputs : \A f \in x.fields : Base(f.ty).k \in {"N", "E", "S"}
=============================================================================
