--------------------------------- MODULE Api ---------------------------------
(* The calls that set up a schema: RegisterEnum, RegisterDirective, Parse,   *)
(* Implements and TypeRename in any order, with arguments of every kind.     *)
(* C.calls is the history. A call that is refused leaves nothing behind; the *)
(* state after the last call is what introspection lists and requests see.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES C, m

-----------------------------------------------------------------------------
(* what arguments are made of *)

\* types of enum members: name, package, kind; a type without a name is one of Go's own
T(n, p, k) == [n |-> n, p |-> p, k |-> k]
Type == [ A |-> T("A", "pa", "string"), A2 |-> T("A", "pb", "int"), B |-> T("B", "pa", "int8"), C |-> T("C", "pa", "uint64"), Low |-> T("fruit", "pa", "string"),
          Sc |-> T("String", "pb", "string"), Kind |-> T("__TypeKind", "pa", "int"), G |-> T("G[int]", "pa", "int"), Fl |-> T("Fl", "pa", "float64"), Bo |-> T("Bo", "pa", "bool"),
          St |-> T("St", "pa", "struct"), Any |-> T("", "", "interface"), Str |-> T("", "", "string"), Int |-> T("", "", "int"), Ptr |-> T("", "", "ptr") ]
MemberKinds == {"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

Letter(c) == c \in 65..90 \cup 97..122
Digit(c) == c \in 48..57
\* the codes of a name; a name of the code base starts with a letter, one in a query can start with an underscore too
Codes == [ X1 |-> <<88, 49>>, Y |-> <<89>>, Zed_9 |-> <<90, 101, 100, 95, 57>>, True |-> <<84, 114, 117, 101>>,
           empty |-> <<>>, nine |-> <<57, 120>>, under |-> <<95, 120>>, space |-> <<97, 32, 98>>, dash |-> <<97, 45, 98>>, acute |-> <<195, 169>>, line |-> <<97, 10>>,
           quote |-> <<97, 34>>, true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, null |-> <<110, 117, 108, 108>>,
           da |-> <<100, 97>>, db |-> <<100, 98>>, D9 |-> <<68, 57>>, on |-> <<111, 110>>, skip |-> <<115, 107, 105, 112>>, include |-> <<105, 110, 99, 108, 117, 100, 101>> ]
GoodKey(k) == LET s == Codes[k] IN
  /\ s # <<>> /\ Letter(s[1]) /\ \A i \in DOMAIN s : Letter(s[i]) \/ Digit(s[i]) \/ s[i] = 95
  /\ k \notin {"true", "false", "null"}
GoodName(n) == LET s == Codes[n] IN s # <<>> /\ ~Digit(s[1]) /\ \A i \in DOMAIN s : Letter(s[i]) \/ Digit(s[i]) \/ s[i] = 95
GoodTypeName(n) == n \notin {"", "G[int]"}

Locations == {"F", "S", "I"}
\* methods of directives: does Parse take their parameters
Methods == [ skip |-> "ok", keep |-> "ok", arg |-> "ok", ctx |-> "ok", ctxarg |-> "ok", named |-> "ok",
             plain |-> "in", chan |-> "in", variadic |-> "in", map |-> "in",
             nil |-> "bad", nilfunc |-> "bad", nonfunc |-> "bad", noout |-> "bad", twoout |-> "bad", wrongout |-> "bad", ptrout |-> "bad", likeout |-> "bad", errout |-> "bad" ]
MArgs(x) == IF x \in {"arg", "ctxarg"} THEN {"on"} ELSE {}
\* what a directive does, used without an argument, with true, with false
Effect(x, a) == IF a # "" /\ MArgs(x) = {} THEN "error"
                ELSE IF x \in {"skip", "ctx"} THEN "skip" ELSE IF x \in {"keep", "named"} THEN "keep"
                ELSE IF a = "true" THEN "skip" ELSE "keep"

\* roots: what kind of value, and the named types in it, by role: object, interface, input
R(k, os, is, ns) == [k |-> k, o |-> os, i |-> is, n |-> ns]
N(n, p) == [n |-> n, p |-> p]
Root == [ nil |-> R("other", {}, {}, {}), int |-> R("other", {}, {}, {}), ptr |-> R("other", {}, {}, {}), nilptr |-> R("other", {}, {}, {}), slice |-> R("other", {}, {}, {}),
          func |-> R("other", {}, {}, {}), map |-> R("other", {}, {}, {}), string |-> R("other", {}, {}, {}),
          QUse |-> R("struct", {N("QUse", "pa")}, {}, {}), M0 |-> R("struct", {N("M0", "pa")}, {}, {}),
          QNone |-> R("struct", {N("QNone", "pa")}, {}, {}),
          QBad |-> R("bad", {N("QBad", "pa")}, {}, {}), QBadIn |-> R("bad", {N("QBadIn", "pa")}, {}, {}), MBad |-> R("bad", {N("MBad", "pa")}, {}, {}),
          QDeepBad |-> R("bad", {N("QDeepBad", "pa"), N("Deep", "pa")}, {}, {}),
          QObjs |-> R("struct", {N("QObjs", "pa"), N("T", "pa"), N("T", "pb")}, {}, {}),
          QIns |-> R("struct", {N("QIns", "pa")}, {}, {N("In", "pa"), N("In", "pb")}),
          QIfs |-> R("struct", {N("QIfs", "pa"), N("ImplA", "pa"), N("ImplB", "pb")}, {N("If", "pa"), N("If", "pb")}, {}),
          QObjIn |-> R("struct", {N("QObjIn", "pa"), N("T", "pa")}, {}, {N("T", "pb")}),
          QObjIf |-> R("struct", {N("QObjIf", "pa"), N("If", "pc"), N("ImplA", "pa")}, {N("If", "pa")}, {}),
          QEnumObj |-> R("struct", {N("QEnumObj", "pa"), N("B", "pb")}, {}, {}),
          QEnumIn |-> R("struct", {N("QEnumIn", "pa")}, {}, {N("C", "pb")}),
          QScalar |-> R("struct", {N("QScalar", "pa"), N("ID", "pb")}, {}, {}),
          QScalarIn |-> R("struct", {N("QScalarIn", "pa")}, {}, {N("Int", "pb")}),
          QMeta |-> R("struct", {N("QMeta", "pa"), N("__Type", "pa")}, {}, {}),
          QMetaIf |-> R("struct", {N("QMetaIf", "pa"), N("ImplM", "pa")}, {N("__Field", "pa")}, {}),
          QMetaIn |-> R("struct", {N("QMetaIn", "pa")}, {}, {N("__InputValue", "pa")}),
          MT |-> R("struct", {N("MT", "pa"), N("T", "pb")}, {}, {}),
          MQ |-> R("struct", {N("QUse", "pb")}, {}, {}) ]
Scalars == {"Boolean", "Int", "Float", "String", "ID", "File", "Time"}
MetaObjects == {"__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive"}
MetaEnums == {"__TypeKind", "__DirectiveLocation"}

\* where the types of members are used, in the root QUse: two values and a method that returns what it is given
Uses == <<"A", "A2", "B", "C", "Low">>
\* value 1 is called X1 in every registration and value 2 Y
ValueOf(k) == IF k = "X1" THEN 1 ELSE IF k = "Y" THEN 2 ELSE 0

\* implementations: what can be registered
ImplOk == {<<"If", "ImplA">>}
\* renaming: what can be renamed to what; a forced name is not looked at
RenOk(c) == c.t = "struct" /\ c.n # "empty" /\ (c.force \/ GoodKey(c.n) \/ c.n \in {"true", "false", "null", "line"}) \* space around it is cut off

-----------------------------------------------------------------------------
Has(c) == m.i <= Len(C.calls) /\ C.calls[m.i].k = c
Call == C.calls[m.i]
InitM == [i |-> 1, parsed |-> FALSE, intro |-> FALSE, q |-> "", enums |-> <<>>, dirs |-> <<>>, res |-> <<>>, what |-> "", open |-> FALSE]
Answer(a, what) == [m EXCEPT !.i = @ + 1, !.res = Append(@, a), !.what = what]

Registered(n) == n \in MetaEnums \/ \E j \in DOMAIN m.enums : Type[m.enums[j].t].n = n
EnumVerdict(c) ==
  IF m.parsed THEN "parsed"
  ELSE IF c.shape \in {"nil", "nonmap", "nilmap", "intkey"} THEN "no map of names"
  ELSE IF Type[c.t].k \notin MemberKinds THEN "kind"
  ELSE IF ~GoodTypeName(Type[c.t].n) THEN "type name"
  ELSE IF c.keys = <<>> THEN "empty"
  ELSE IF \E j \in DOMAIN c.keys : ~GoodKey(c.keys[j]) THEN "member name"
  ELSE IF Registered(Type[c.t].n) THEN "registered"
  ELSE ""
EnumRefused == Has("enum") /\ EnumVerdict(Call) \notin {"", "empty"} /\ m' = Answer("err", EnumVerdict(Call))
EnumEmpty   == Has("enum") /\ EnumVerdict(Call) = "empty" /\ m' = Answer("none", "empty")
EnumAdded   == Has("enum") /\ EnumVerdict(Call) = "" /\ m' = [Answer("added", "") EXCEPT !.enums = Append(@, [t |-> Call.t, keys |-> Call.keys])]

LocsOf(d) == {d.where[j] : j \in DOMAIN d.where}
Taken(n, l) == n \in {"skip", "include"} \/ \E j \in DOMAIN m.dirs : m.dirs[j].name = n /\ l \in LocsOf(m.dirs[j])
DirVerdict(c) ==
  IF m.parsed THEN "parsed"
  ELSE IF ~GoodName(c.name) THEN "name"
  ELSE IF c.where = <<>> \/ ~(LocsOf(c) \subseteq Locations) THEN "locations"
  ELSE IF Methods[c.method] = "bad" THEN "method"
  ELSE IF Cardinality(LocsOf(c)) # Len(c.where) THEN "location twice"
  ELSE IF \E l \in LocsOf(c) : Taken(c.name, l) THEN "registered"
  ELSE ""
DirRefused == Has("dir") /\ DirVerdict(Call) # "" /\ m' = Answer("err", DirVerdict(Call))
DirAdded   == Has("dir") /\ DirVerdict(Call) = "" /\ m' = [Answer("added", "") EXCEPT !.dirs = Append(@, [name |-> Call.name, where |-> Call.where, method |-> Call.method])]

\* the names a schema has to keep apart
NamesIn(s) == {x.n : x \in s}
Twice(s) == \E x, y \in s : x.n = y.n /\ x.p # y.p
ParseVerdict(c) ==
  LET q == Root[c.q]  mu == Root[c.mu]
      os == q.o \cup mu.o  is == q.i \cup mu.i  ns == q.n \cup mu.n
      es == {Type[m.enums[j].t].n : j \in DOMAIN m.enums} \cup MetaEnums
      objs == NamesIn(os) \cup (IF c.skip THEN {} ELSE MetaObjects)
      \* an input with the name of an object gets another one
      groups == <<objs, NamesIn(is), NamesIn(ns) \ objs, es, Scalars>>
  IN
  IF q.k # "struct" \/ mu.k # "struct" THEN "not a struct that can be represented"
  ELSE IF c.q = c.mu THEN "query and mutation of the same type"
  ELSE IF Twice(os) \/ Twice(is) \/ Twice(ns) THEN "two types of one name"
  ELSE IF \E x \in os : x.n \in MetaObjects /\ ~c.skip THEN "name of introspection"
  ELSE IF \E a, b \in DOMAIN groups : a < b /\ groups[a] \cap groups[b] # {} THEN "two kinds of one name"
  ELSE IF \E j \in DOMAIN m.dirs : Methods[m.dirs[j].method] = "in" THEN "parameter of a directive"
  ELSE ""
\* the last one counts; what a schema that was parsed can still do after one that was refused is left open
ParseRefused == Has("parse") /\ ParseVerdict(Call) # "" /\ m' = [Answer("err", ParseVerdict(Call)) EXCEPT !.open = m.parsed \/ @]
ParseDone    == Has("parse") /\ ParseVerdict(Call) = "" /\ m' = [Answer("ok", "") EXCEPT !.parsed = TRUE, !.intro = ~Call.skip, !.q = Call.q, !.open = FALSE]

\* registrations that are made when the program starts: what cannot be registered stops it
ImplRefused == Has("impl") /\ <<Call.i, Call.o>> \notin ImplOk /\ m' = Answer("err", "implementation")
ImplAdded   == Has("impl") /\ <<Call.i, Call.o>> \in ImplOk /\ m' = Answer("added", "")
RenRefused  == Has("rename") /\ ~RenOk(Call) /\ m' = Answer("err", "rename")
RenAdded    == Has("rename") /\ RenOk(Call) /\ m' = Answer("added", "")

\* the request handler can be used at any time
Asked == Has("ask") /\ m' = Answer(IF m.parsed THEN "ok" ELSE "err", "")
\* a cache rule can be set at any time
Ruled == Has("rule") /\ m' = Answer("ok", "")

Step == EnumRefused \/ EnumEmpty \/ EnumAdded \/ DirRefused \/ DirAdded \/ ParseRefused \/ ParseDone
        \/ ImplRefused \/ ImplAdded \/ RenRefused \/ RenAdded \/ Asked \/ Ruled
Done == m.i > Len(C.calls)

-----------------------------------------------------------------------------
(* what can be seen after the last call *)
EnumOf(t) == {j \in DOMAIN m.enums : m.enums[j].t = t}
KeysOf(t) == LET e == m.enums[CHOOSE j \in EnumOf(t) : TRUE] IN {e.keys[j] : j \in DOMAIN e.keys}
BaseOf(t) == IF Type[t].k = "string" THEN "String" ELSE "Int"
Raw(t, v) == IF Type[t].k = "string" THEN "v" \o ToString(v) ELSE ToString(v)
UseType(t) == IF EnumOf(t) # {} THEN "ENUM " \o Type[t].n ELSE "SCALAR " \o BaseOf(t)
UseValue(t, v) ==
  IF EnumOf(t) = {} THEN Raw(t, v)
  ELSE LET ks == {k \in KeysOf(t) : ValueOf(k) = v} IN IF ks = {} THEN "null" ELSE CHOOSE k \in ks : TRUE
\* a member given as argument: by its name when it is one
UseMember(t, k) == IF EnumOf(t) # {} /\ k \in KeysOf(t) THEN k ELSE "error"
UseRaw(t) == IF EnumOf(t) = {} THEN Raw(t, 1) ELSE ""
ListedEnums == {[n |-> Type[m.enums[j].t].n, ks |-> {m.enums[j].keys[k] : k \in DOMAIN m.enums[j].keys}] : j \in DOMAIN m.enums}
ListedDirs == {[n |-> m.dirs[j].name, locs |-> LocsOf(m.dirs[j]), args |-> MArgs(m.dirs[j].method)] : j \in DOMAIN m.dirs}
UseDir(n, l, a) == LET ds == {j \in DOMAIN m.dirs : m.dirs[j].name = n /\ l \in LocsOf(m.dirs[j])} IN
  IF ds = {} THEN "error" ELSE Effect(m.dirs[CHOOSE j \in ds : TRUE].method, a)

-----------------------------------------------------------------------------
ApiInv ==
  /\ \A a, b \in DOMAIN m.enums : a # b => Type[m.enums[a].t].n # Type[m.enums[b].t].n
  /\ \A a, b \in DOMAIN m.dirs : a # b /\ m.dirs[a].name = m.dirs[b].name => LocsOf(m.dirs[a]) \cap LocsOf(m.dirs[b]) = {}
  /\ \A a \in DOMAIN m.enums : \A j \in DOMAIN m.enums[a].keys : GoodKey(m.enums[a].keys[j])
  /\ \A a \in DOMAIN m.dirs : GoodName(m.dirs[a].name) /\ LocsOf(m.dirs[a]) # {}
  /\ Len(m.res) = m.i - 1
\* a refused call changes nothing but the list of answers, in a parsed schema nothing can be registered
Frozen == [][ /\ (m'.res # <<>> /\ m'.res[Len(m'.res)] \in {"err", "none"}) \/ m.parsed => m'.enums = m.enums /\ m'.dirs = m.dirs
              /\ m'.res # <<>> /\ m'.res[Len(m'.res)] # "ok" => m'.parsed = m.parsed /\ m'.intro = m.intro /\ m'.q = m.q ]_m
=============================================================================
