-------------------------------- MODULE ApiGen --------------------------------
(* Histories of set up calls, by CONF:                                       *)
(*  enum    one enum with every kind of argument, then Parse                 *)
(*  dir     one directive with every kind of argument, then Parse            *)
(*  parse   something registered, then Parse with every pair of roots        *)
(*  many    SIZE calls of those that matter to each other, then Parse        *)
(*  retry   Parse that is refused, another call, Parse                       *)
(*  late    calls after Parse, requests before it                            *)
(*  global  Implements and TypeRename                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)

VARIABLES c, m, pc
A == INSTANCE Api WITH C <- c

Enum(s, t, ks) == [k |-> "enum", shape |-> s, t |-> t, keys |-> ks]
Dir(n, w, x) == [k |-> "dir", name |-> n, where |-> w, method |-> x]
Parse(q, mu, s) == [k |-> "parse", q |-> q, mu |-> mu, skip |-> s]
Good == Parse("QUse", "M0", FALSE)
Ask == [k |-> "ask"]
Rule == [k |-> "rule"]

Keys == {"X1", "Y", "Zed_9", "True", "empty", "nine", "under", "space", "dash", "acute", "line", "quote", "true", "false", "null"}
Shapes == {"nil", "nonmap", "nilmap", "intkey", "map", "namedkey"}
EnumCalls == {Enum("map", t, <<"X1", "Y">>) : t \in DOMAIN A!Type} \cup {Enum("map", t, <<>>) : t \in DOMAIN A!Type}
             \cup {Enum(s, t, <<"X1">>) : s \in Shapes, t \in {"A", "B", "Fl"}}
             \cup {Enum("map", t, <<k>>) : t \in {"A", "C"}, k \in Keys} \cup {Enum("map", t, <<k, j>>) : t \in {"A", "B"}, k, j \in Keys} \cup {Enum("map", "A", <<"X1", "Y", k>>) : k \in Keys \ {"X1", "Y"}}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

Names == {"da", "D9", "under", "True", "true", "on", "empty", "nine", "space", "dash", "acute", "line", "quote", "skip", "include"}
Wheres == {<<>>, <<"nil">>, <<"F">>, <<"S">>, <<"I">>, <<"F", "S">>, <<"S", "I">>, <<"F", "S", "I">>, <<"I", "F">>, <<"F", "F">>, <<"F", "S", "F">>, <<"odd">>, <<"F", "odd">>}
DirCalls == {Dir(n, w, x) : n \in Names, w \in {<<"F">>, <<"S">>, <<"F", "S", "I">>}, x \in {"skip", "arg"}} \cup {Dir("da", w, x) : w \in Wheres, x \in DOMAIN A!Methods}

Core == {Enum("map", "A", <<"X1", "Y">>), Enum("map", "A", <<"Y">>), Enum("map", "A2", <<"X1">>), Enum("map", "B", <<"X1", "Zed_9">>), Enum("map", "C", <<"Y">>), Enum("map", "A", <<"X1", "nine">>),
         Enum("map", "A2", <<"null">>), Enum("map", "A", <<>>), Enum("map", "Low", <<"X1">>),
         Dir("da", <<"F">>, "skip"), Dir("da", <<"F", "S">>, "arg"), Dir("da", <<"S", "I">>, "keep"), Dir("da", <<"I">>, "ctxarg"), Dir("db", <<"F", "S", "I">>, "skip"),
         Dir("da", <<"F">>, "wrongout"), Dir("da", <<"S", "S">>, "skip"), Dir("skip", <<"F">>, "keep"), Dir("db", <<"I", "F">>, "ctx")}
BadParses == {Parse(r, "M0", FALSE) : r \in DOMAIN A!Root \ {"QUse", "QNone", "QEnumObj", "QEnumIn", "MT", "MQ"}} \cup {Parse("QUse", "QUse", FALSE), Parse("QUse", "MBad", FALSE), Parse("QUse", "nil", FALSE), Parse("QUse", "MQ", FALSE), Parse("QUse", "int", FALSE)}
Before == {<<>>, <<Enum("map", "B", <<"X1">>)>>, <<Enum("map", "C", <<"X1">>)>>, <<Enum("map", "Sc", <<"X1">>)>>, <<Dir("da", <<"F">>, "chan")>>}

Hist ==
  CASE Conf = "enum" -> {<<e, Parse("QUse", "M0", s)>> : e \in {x \in EnumCalls : Distinct(x.keys)}, s \in {FALSE}} \cup {<<Enum("map", "A", <<"X1">>), Parse("QUse", "M0", TRUE)>>}
    [] Conf = "dir" -> {<<d, Good>> : d \in DirCalls}
    [] Conf = "parse" -> {b \o <<Parse(q, mu, s)>> : b \in Before, q \in DOMAIN A!Root, mu \in {"M0", "MT", "MQ", "QUse"}, s \in BOOLEAN} \cup {<<Parse("QUse", mu, FALSE)>> : mu \in DOMAIN A!Root}
    [] Conf = "many" -> {s \o <<Good>> : s \in UNION {[1..k -> Core] : k \in 0..Size}}
    [] Conf = "retry" -> {s \o <<b>> \o x \o <<Good>> : s \in {<<>>, <<Enum("map", "A", <<"X1">>)>>}, b \in BadParses, x \in {<<>>, <<Enum("map", "B", <<"Y">>)>>, <<Dir("da", <<"S">>, "skip")>>, <<Ask>>}}
                         \cup {<<b, d>> : b, d \in BadParses}
    [] Conf = "late" -> {x \o <<Good>> \o y : x \in {<<>>, <<Ask>>, <<Rule>>}, y \in {<<d>> : d \in Core \cup {Ask, Rule}} \cup {<<d, Ask>> : d \in Core}} \cup {<<Ask>>, <<Rule, Ask>>, <<Ask, Good>>, <<Rule, Good, Rule>>}
                        \cup {x \o <<Parse(a, b, s), Parse(d, e, FALSE)>> : x \in {<<>>, <<Dir("da", <<"F">>, "arg")>>, <<Enum("map", "A", <<"X1">>)>>},
                                a, d \in {"QUse", "QObjIn", "QNone", "QEnumObj", "QMeta"}, b, e \in {"M0", "MT"}, s \in BOOLEAN}
    [] Conf = "global" -> {<<g>> \o <<Good>> : g \in
          {[k |-> "impl", i |-> i, o |-> o] : i \in {"nil", "notptr", "ptrstruct", "inline", "If", "Other"}, o \in {"nil", "ptr", "inline", "int", "St", "ImplA"}}
          \cup {[k |-> "rename", t |-> t, n |-> n, force |-> f] : t \in {"struct", "anon", "int"}, n \in Names \ {"skip", "include"}, f \in BOOLEAN}}

Init == pc = "run" /\ c \in {[calls |-> h] : h \in Hist} /\ m = A!InitM
Run == pc = "run" /\ A!Step /\ UNCHANGED <<c, pc>>
Emit == pc = "run" /\ A!Done /\ PrintT("CASE " \o ToJson(c)) /\ pc' = "over" /\ UNCHANGED <<c, m>>
Over == pc = "over" /\ UNCHANGED <<c, m, pc>>
Next == Run \/ Emit \/ Over
Spec == Init /\ [][Next]_<<c, m, pc>>
GenInv == A!ApiInv
Frozen == A!Frozen
=============================================================================
