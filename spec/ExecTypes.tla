----------------------------- MODULE ExecTypes -----------------------------
(* The schema that the executor's specification runs on.                      *)
EXTENDS Sequences

(* The schema of the universe (harness/universe.go)                          *)

Str  == [k |-> "leaf", n |-> "String"]
Int  == [k |-> "leaf", n |-> "Int"]
Col  == [k |-> "leaf", n |-> "Color"]   \* an enum
Tim  == [k |-> "leaf", n |-> "Time"]
Boo  == [k |-> "leaf", n |-> "Boolean"]
Flo  == [k |-> "leaf", n |-> "Float"]
Id   == [k |-> "leaf", n |-> "ID"]
P(t) == [k |-> "ptr", e |-> t]
S(t) == [k |-> "list", e |-> t]
O(n) == [k |-> "obj", n |-> n]
I(n) == [k |-> "iface", n |-> n]
Fn(t)   == [k |-> "func", e |-> t, arg |-> FALSE]  \* function field, may be nil
FnN(t)  == [k |-> "func", e |-> t, arg |-> TRUE]   \* function field with an argument n: Int!
Me(t)   == [k |-> "meth", e |-> t, arg |-> FALSE]  \* Resolve method
MeN(t)  == [k |-> "meth", e |-> t, arg |-> TRUE]   \* Resolve method with an argument n: Int!
MeH(t)  == [k |-> "meth", e |-> t, arg |-> TRUE]   \* Resolve method with several arguments holding text

QObjFields ==
  [ a |-> Str, n |-> Int, URL |-> Str, tagged |-> Str,
    p |-> P(Str), pp |-> P(P(Str)), ls |-> S(Str), lp |-> S(P(Str)), lls |-> S(S(Str)),
    ec |-> Col, ecl |-> S(P(Col)), td |-> Tim, tdl |-> S(P(Tim)), ar |-> S(Str), mec |-> Me(Col), mtd |-> Me(P(Tim)),
    op |-> P(O("Obj")), ol |-> S(O("Obj")), opl |-> S(P(O("Obj"))), oll |-> S(S(O("Obj"))),
    olp |-> P(S(O("Obj"))), x |-> O("Alt"),
    i |-> I("Nd"), il |-> S(I("Nd")), ill |-> S(S(I("Nd"))), ip |-> P(I("Nd")),
    f |-> Fn(Str), fo |-> Fn(P(O("Obj"))), fl |-> Fn(S(O("Obj"))),
    m |-> Me(Str), mo |-> Me(P(O("Obj"))), ml |-> Me(S(O("Obj"))), mi |-> Me(I("Nd")),
    bo |-> Boo, fl8 |-> Flo, u8 |-> Int, id |-> Id,
    l3 |-> S(S(S(Str))), plp |-> P(S(P(Str))), lpl |-> S(P(S(Str))), ax |-> S(O("Alt")), aop |-> S(P(O("Obj"))),
    ppo |-> P(P(O("Obj"))), lpp |-> S(P(P(O("Obj")))), ipl |-> S(P(I("Nd"))),
    fi |-> Fn(I("Nd")), fg |-> FnN(Int),
    mll |-> Me(S(S(P(O("Obj"))))), mpl |-> Me(P(S(P(O("Obj"))))), mpo |-> Me(P(P(O("Obj")))), emb |-> Me(Str),
    nm |-> I("Nm"), nml |-> S(I("Nm")), mnm |-> Me(I("Nm")), bv |-> O("Bare"), bq |-> P(O("Bare")),
    mil |-> Me(S(I("Nd"))), me |-> Me(Str), g |-> MeN(Int), go |-> MeN(P(O("Obj"))), h |-> MeH(Str) ]

Fields ==
  [ Q   |-> QObjFields,
    Obj |-> QObjFields,
    M   |-> [ a |-> Str, ls |-> S(Str), op |-> P(O("Obj")), ol |-> S(O("Obj")), opl |-> S(P(O("Obj"))),
              i |-> I("Nd"), il |-> S(I("Nd")), f |-> Fn(Str), fo |-> Fn(P(O("Obj"))),
              m |-> Me(Str), mo |-> Me(P(O("Obj"))), ml |-> Me(S(O("Obj"))), mi |-> Me(I("Nd")), g |-> MeN(Int) ],
    Alt |-> [ a |-> Str, z |-> Str, op |-> P(O("Obj")), il |-> S(I("Nd")), m |-> Me(Str), mo |-> Me(P(O("Obj"))) ],
    Renamed |-> [ a |-> Str, r |-> Str, i |-> I("Nd"), m |-> Me(Str), mo |-> Me(P(O("Obj"))), ml |-> Me(S(O("Obj"))) ],
    \* a struct without any field
    Bare |-> [ m |-> Me(Str), mo |-> Me(P(O("Obj"))), b |-> Me(O("Bare")), bp |-> Me(P(O("Bare"))), bl |-> Me(S(O("Bare"))) ] ]

\* the interfaces every object type implements
\* (Nd and Nm ask for the same methods; Alt has them all but is only registered for Nd)
Impl == [ Q |-> {}, M |-> {}, Obj |-> {"Nd", "Nm"}, Alt |-> {"Nd"}, Renamed |-> {"Nd", "Nm"}, Bare |-> {"Nd"} ]

NoErrFields == {"me"}   \* resolvers without an error result

\* the type as introspection and tracing print it
RECURSIVE TypeStr(_)
Nullable(t) == t.k \in {"ptr", "list", "iface", "func"}
RECURSIVE BareStr(_)
BareStr(t) ==
  CASE t.k \in {"leaf", "obj", "iface"} -> t.n
    [] t.k \in {"ptr", "func", "meth"} -> BareStr(t.e)
    [] t.k = "list" -> "[" \o TypeStr(t.e) \o "]"
RECURSIVE NonNull(_)
NonNull(t) == CASE t.k = "meth" -> NonNull(t.e) [] OTHER -> ~Nullable(t)
TypeStr(t) == IF NonNull(t) THEN BareStr(t) \o "!" ELSE BareStr(t)

=============================================================================
