----------------------------- MODULE SchemaTrace -----------------------------
(* Trace validation of definitions: the machine of Schema builds the schema  *)
(* of a definition, what the real code says about its own schema (in         *)
(* introspection, by answering queries, in the test helpers) is compared.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)      \* sequence of strings

VARIABLES ci, m
S == INSTANCE Schema WITH C <- Cases[ci]

Set(s) == {s[j] : j \in DOMAIN s}
Names(s) == {s[j].n : j \in DOMAIN s}
NoDup(s) == Cardinality(Names(s)) = Len(s)

\* what the introspection adds to every schema
MetaObjects == {"__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive"}
MetaEnums == {"__TypeKind", "__DirectiveLocation"}
Meta == MetaObjects \cup MetaEnums
BuiltIn == {"skip", "include"}
BuiltInLocs == {"FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"}
MetaFields == [ t \in MetaObjects |->
  CASE t = "__Schema" -> {"types", "queryType", "mutationType", "subscriptionType", "directives"}
    [] t = "__Type" -> {"kind", "name", "description", "fields", "interfaces", "possibleTypes", "enumValues", "inputFields", "ofType", "specifiedByURL"}
    [] t = "__Field" -> {"name", "description", "args", "type", "isDeprecated", "deprecationReason"}
    [] t = "__EnumValue" -> {"name", "description", "isDeprecated", "deprecationReason"}
    [] t = "__InputValue" -> {"name", "description", "type", "defaultValue"}
    [] OTHER -> {"name", "description", "locations", "args"} ]
MetaMembers == [ t \in MetaEnums |->
  IF t = "__TypeKind" THEN {"SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL"}
  ELSE {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION",
        "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"} ]

Obj == {x \in m.types : x.k = "struct"}
Ifc == {x \in m.types : x.k = "iface"}
EnumNames == {d.n : d \in S!Enums}
KindOf(n) ==
  IF n \in {x.n : x \in Obj} \cup MetaObjects THEN "O" ELSE IF n \in {x.n : x \in Ifc} THEN "I" ELSE IF n \in {x.n : x \in m.inputs} THEN "N"
  ELSE IF n \in EnumNames \cup MetaEnums THEN "E" ELSE IF n \in S!Scalars THEN "S" ELSE ""
AllNames == {x.n : x \in m.types} \cup {x.n : x \in m.inputs} \cup EnumNames \cup S!Scalars \cup Meta
FieldsNamed(n) == IF n \in MetaObjects THEN MetaFields[n] ELSE {f.n : f \in S!TypeNamed(n).fields}
QName == S!RootName(Cases[ci].q)
MName == S!RootName(Cases[ci].mu)

Say(what, x) == what \o " " \o ToString(x)
Delta(a, b) == (a \ b) \cup (b \ a)
First(s) == IF s = {} THEN "" ELSE CHOOSE x \in s : TRUE

\* one type of the list, against what the machine says about it
TypeDiff(o) ==
  CASE o.k # KindOf(o.n) -> "kind of " \o o.n
    [] ~(NoDup(o.fields) /\ NoDup(o.inputs) /\ Cardinality(Set(o.enums)) = Len(o.enums) /\ Cardinality(Set(o.ifaces)) = Len(o.ifaces) /\ Cardinality(Set(o.poss)) = Len(o.poss)) -> "something twice in " \o o.n
    [] o.n \in MetaObjects -> IF Names(o.fields) # MetaFields[o.n] THEN "fields of " \o o.n ELSE ""
    [] o.n \in MetaEnums -> IF Set(o.enums) # MetaMembers[o.n] THEN "members of " \o o.n ELSE ""
    [] o.k \in {"O", "I"} ->
         LET t == S!TypeNamed(o.n)
             fs == {[n |-> o.fields[j].n, ty |-> o.fields[j].ty] : j \in DOMAIN o.fields}
         IN
         IF Names(o.fields) # {f.n : f \in t.fields} THEN "fields of " \o o.n \o " " \o ToString(Delta(Names(o.fields), {f.n : f \in t.fields}))
         ELSE IF fs # t.fields THEN "field types of " \o o.n \o " " \o ToString(Delta(fs, t.fields))
         ELSE IF \E j \in DOMAIN o.fields : ~NoDup(o.fields[j].args) \/ Set(o.fields[j].args) # S!ArgsFor(o.n, o.fields[j].n) THEN "arguments of a field of " \o o.n
         ELSE IF Set(o.ifaces) # t.ifaces THEN "interfaces of " \o o.n
         ELSE IF Set(o.poss) # t.poss THEN "possible types of " \o o.n
         ELSE IF o.inputs # <<>> \/ o.enums # <<>> THEN "things of another kind in " \o o.n
         ELSE ""
    [] o.k = "N" ->
         LET t == CHOOSE x \in m.inputs : x.n = o.n IN
         IF Set(o.inputs) # t.fields THEN "input fields of " \o o.n \o " " \o ToString(Delta(Set(o.inputs), t.fields))
         ELSE IF o.fields # <<>> \/ o.enums # <<>> \/ o.ifaces # <<>> \/ o.poss # <<>> THEN "things of another kind in " \o o.n
         ELSE ""
    [] o.k = "E" ->
         IF Set(o.enums) # Set((CHOOSE d \in S!Enums : d.n = o.n).members) THEN "members of " \o o.n
         ELSE IF o.fields # <<>> \/ o.inputs # <<>> \/ o.ifaces # <<>> \/ o.poss # <<>> THEN "things of another kind in " \o o.n
         ELSE ""
    [] OTHER -> IF o.fields # <<>> \/ o.inputs # <<>> \/ o.enums # <<>> \/ o.ifaces # <<>> \/ o.poss # <<>> THEN "things of another kind in " \o o.n ELSE ""

\* directives: [n, locs, desc, args], every entry one registration
DirWant(n, locs, desc, args) == [n |-> n, locs |-> locs, desc |-> desc, args |-> args]
DirsWant == {DirWant(Cases[ci].dirs[j].n, Set(Cases[ci].dirs[j].locs), Cases[ci].dirs[j].desc,
                     LET a == S!ArgsOf("@@" \o Cases[ci].dirs[j].n, Cases[ci].dirs[j].params, S!Taken) IN {[n |-> a.as[k].n, ty |-> S!Wrap(a.as[k].r)] : k \in DOMAIN a.as}) : j \in DOMAIN Cases[ci].dirs}
IfArg == {[n |-> "if", ty |-> S!NN(S!Leaf("S", "Boolean"))]}
DirsDiff(ds) ==
  LET own == {j \in DOMAIN ds : ds[j].n \notin BuiltIn} IN
  IF {DirWant(ds[j].n, Set(ds[j].locs), ds[j].desc, Set(ds[j].args)) : j \in own} # DirsWant \/ Cardinality(own) # Cardinality(DirsWant) THEN "directives"
  ELSE IF \E b \in BuiltIn : Cardinality({j \in DOMAIN ds : ds[j].n = b}) # 1 THEN "built in directives"
  ELSE IF \E j \in DOMAIN ds \ own : Set(ds[j].locs) # BuiltInLocs \/ Set(ds[j].args) # IfArg THEN "built in directives"
  ELSE ""

TypesDiff(o) ==
  LET bad == {j \in DOMAIN o.types : TypeDiff(o.types[j]) # ""} IN
  IF Names(o.types) # AllNames THEN Say("types", Delta(Names(o.types), AllNames))
  ELSE IF ~NoDup(o.types) THEN "a type twice"
  ELSE IF bad # {} THEN TypeDiff(o.types[CHOOSE j \in bad : \A k \in bad : j <= k])
  ELSE IF o.q # QName \/ o.mu # MName THEN "query or mutation type"
  ELSE IF o.agree # "" THEN "answers do not agree: " \o o.agree
  ELSE DirsDiff(o.dirs)

\* every field answered with a value of its type
TypeOf(ty, f) == (CHOOSE x \in S!TypeNamed(ty).fields : x.n = f).ty
ExecDiff(o) ==
  LET bad(x) == IF x.err # "" THEN "query of all fields of " \o x.ty \o " failed: " \o x.err
                ELSE IF x.reached = "null" THEN "no value of " \o x.ty
                ELSE IF x.reached # "yes" THEN ""
                ELSE IF Names(x.fs) # FieldsNamed(x.ty) THEN "fields in the answer of " \o x.ty
                ELSE LET no == {j \in DOMAIN x.fs : ~S!Conforms(x.fs[j].sh, TypeOf(x.ty, x.fs[j].n))} IN
                     IF no # {} THEN "value of " \o x.ty \o "." \o x.fs[First(no)].n ELSE ""
      all == {j \in DOMAIN o.exec : bad(o.exec[j]) # ""}
  IN IF all # {} THEN bad(o.exec[CHOOSE j \in all : \A k \in all : j <= k]) ELSE ""

\* a name that can be used is listed and the other way around
MayAsk(ty, n) == n \in FieldsNamed(ty) \/ n = "__typename" \/ (ty = QName /\ n \in {"__schema", "__type"})
Inputs(n) == (CHOOSE x \in m.inputs : x.n = n).fields
ProbeOk(p) ==
  \* a value of an interface is answered by its object: fields that only the object has are left open
  CASE p.w = "field" -> p.ok = MayAsk(p.ty, p.n) \/ (KindOf(p.ty) = "I" /\ p.n \notin FieldsNamed(p.ty) /\ \E o \in S!TypeNamed(p.ty).poss : p.n \in FieldsNamed(o))
    [] p.w = "arg" -> p.ok = (p.n \in {a.n : a \in S!ArgsFor(p.ty, p.f)})
    [] p.w = "infield" -> p.ok = (p.n \in {a.n : a \in Inputs(p.ty)})
    [] p.w \in {"fit", "var"} -> p.ok
    [] OTHER -> FALSE
ProbeDiff(ps, ws) ==
  LET bad == {j \in DOMAIN ps : ps[j].w \in ws /\ ~ProbeOk(ps[j])} IN
  IF bad = {} THEN "" ELSE LET p == ps[First(bad)] IN p.w \o " " \o p.ty \o "." \o p.f \o " " \o p.n \o (IF p.ok THEN " is accepted" ELSE " is not accepted")

HelperDiff(hs) ==
  LET want(h) == [ has |-> h.n \in AllNames, kind |-> KindOf(h.n) ]
      bad == {j \in DOMAIN hs :
                \/ hs[j].has # want(hs[j]).has \/ hs[j].kind # want(hs[j]).kind
                \/ \E k \in DOMAIN hs[j].lists :
                     LET l == hs[j].lists[k]
                         fields == IF want(hs[j]).kind \in {"O", "I"} THEN FieldsNamed(hs[j].n) ELSE {}
                         has == want(hs[j]).kind \in {"O", "I"} /\ Set(l.fs) \subseteq fields
                     IN l.has # has \/ l.only # (has /\ Set(l.fs) = fields)}
  IN IF bad = {} THEN "" ELSE "helpers on " \o hs[First(bad)].n

Has(x) == \E j \in DOMAIN Mask : Mask[j] = x
RECURSIVE FirstOf(_)
FirstOf(ds) == IF ds = <<>> THEN "" ELSE IF Head(ds) # "" THEN Head(ds) ELSE FirstOf(Tail(ds))
Diff(o) ==
  IF o.crash # "" THEN "crash: " \o o.crash
  ELSE IF o.verdict # m.pc THEN (IF Has("verdict") THEN "definition should be " \o m.pc \o ": " \o o.err ELSE "")
  ELSE IF m.pc = "refused" THEN ""
  ELSE LET t == IF Has("types") THEN TypesDiff(o) ELSE ""
       IN IF t # "" THEN t
          \* what follows only makes sense for types that are what they should be
          ELSE IF ~Has("types") /\ TypesDiff(o) # "" /\ ~Has("helpers") THEN ""
          ELSE LET e == IF Has("exec") THEN ExecDiff(o) ELSE "" IN
               IF e # "" THEN e
               ELSE LET f == IF Has("fields") THEN ProbeDiff(o.probes, {"field"}) ELSE "" IN
                    IF f # "" THEN f
                    ELSE LET a == IF Has("args") THEN ProbeDiff(o.probes, {"arg", "infield", "fit", "var"}) ELSE "" IN
                         IF a # "" THEN a
                         ELSE IF Has("helpers") THEN HelperDiff(o.helpers) ELSE ""

Report(d) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson([verdict |-> m.pc, types |-> m.types, inputs |-> m.inputs, args |-> m.dargs]))

Init == ci \in DOMAIN Cases /\ m = S!InitM
Compare ==
  /\ m.pc \in {"accepted", "refused"}
  /\ Report(Diff(Obss[ci]))
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (S!Step /\ UNCHANGED ci) \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ S!SchemaInv
=============================================================================
