----------------------------- MODULE EnvelopeGen -----------------------------
(* CONF=input: all combinations of a kind of document, of variables, of      *)
(* operation name, and of the way a request is made: the requests that have  *)
(* to be answered in the form of Envelope.                                   *)
(* CONF=form: checks Envelope itself: the machine accepts every answer       *)
(* written by the productions below and none from which a token was taken or *)
(* in which the errors differ from the returned ones.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == IOEnv.CONF
Size == atoi(IOEnv.SIZE)

VARIABLES c, m, exp
E == INSTANCE Envelope WITH C <- c

-----------------------------------------------------------------------------
Docs == {"valid", "args", "errors", "random", "mutated", "spliced", "bytes", "empty", "ignored", "nul", "nonutf8", "bom", "cut", "unclosed", "closed",
         "bigname", "bigstring", "bigint", "bigfloat", "surrogates", "escapes", "blockstring", "manydirectives", "manyargs", "manyaliases", "manyops", "manyfragments",
         "fragself", "fragmutual", "fragunknown", "fragtwice", "fragtype", "unknownfield", "leafselection", "noselection", "opvars", "vartypes", "vardefault", "introspect",
         "deeplist", "deepobject", "deeptype", "deepselection", "deepinline", "deepvalid"}
Vars == {"none", "object", "random", "mutated", "cut", "nonobject", "deep", "types", "twice", "nonutf8", "long"}
Names == {"none", "there", "missing", "odd"}
Entries == {"resolve", "dataonly", "json", "batch", "form", "url"}
Setups == {"plain", "nocache", "tracing", "cancelled", "shallow"}

NoCase == [doc |-> "", vars |-> "", name |-> "", entry |-> "", setup |-> ""]

(* answers by productions: sequences of tokens (sequences of bytes)          *)
Q(s) == <<34>> \o s \o <<34>>
LC == <<123>>  RC == <<125>>  LB == <<91>>  RB == <<93>>  CO == <<58>>  CM == <<44>>
RECURSIVE Sep(_)
Sep(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<CM>> \o Sep(Tail(ss))
Obj(ss) == <<LC>> \o Sep(ss) \o <<RC>>
Arr(ss) == <<LB>> \o Sep(ss) \o <<RB>>
Mem(n, v) == <<Q(n), CO>> \o v
Msgs == {<<97>>, <<>>, <<92, 110>>}       \* a, nothing, a line feed (escaped)
Meant(t) == IF t = <<92, 110>> THEN <<10>> ELSE t
Datas == {Obj(<<>>), Obj(<<Mem(<<97>>, <<<<49>>>>), Mem(<<98>>, Arr(<<<<Q(<<97>>)>>, <<<<110, 117, 108, 108>>>>, Obj(<<>>)>>))>>)}
Paths == {<<>>, <<Mem(E!NPath, Arr(<<<<Q(<<97>>)>>, <<<<48>>>>>>))>>}
Locs == {<<>>, <<Mem(E!NLocs, Arr(<<Obj(<<Mem(E!NLine, <<<<49>>>>), Mem(E!NColumn, <<<<49, 50>>>>)>>)>>))>>}
Errors == {<<t, Obj(<<Mem(E!NMessage, <<Q(t)>>)>> \o p \o l)>> : t \in Msgs, p \in Paths, l \in Locs}
ErrLists == {<<>>} \cup {<<e>> : e \in Errors} \cup {<<e, f>> : e, f \in {x \in Errors : Size > 1 /\ Len(x[2]) < 10}}
Exts == {<<>>, <<Mem(E!NExt, Obj(<<>>))>>}
Response(d, es, x) == Obj(<<Mem(E!NData, d)>> \o (IF es = <<>> THEN <<>> ELSE <<Mem(E!NErrors, Arr([i \in DOMAIN es |-> es[i][2]]))>>) \o x)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* a token that may be missing: an element of an array, one that makes the whole element go is not tried
Droppable(t) == {i \in DOMAIN t : ~(i > 1 /\ i < Len(t) /\ t[i - 1] \in {LB} /\ t[i + 1] \in {RB})}

Writings ==
  {[toks |-> Response(d, es, x), errs |-> [i \in DOMAIN es |-> Meant(es[i][1])], form |-> "response"] : d \in Datas, es \in ErrLists, x \in Exts}
  \cup {[toks |-> Arr(<<Response(d, es, <<>>), Response(d, fs, <<>>)>>), errs |-> [i \in 1..(Len(es) + Len(fs)) |-> Meant((es \o fs)[i][1])], form |-> "batch"]
        : d \in Datas, es, fs \in {x \in ErrLists : Len(x) < 2}}
  \cup {[toks |-> d, errs |-> <<>>, form |-> "data"] : d \in Datas}
As(w) == [text |-> Flat(w.toks), errs |-> w.errs, form |-> w.form]

Init ==
  IF Conf = "form" THEN
    /\ m = E!InitM
    /\ \E w \in Writings :
         \/ c = As(w) /\ exp = "good"
         \/ \E i \in Droppable(w.toks) : c = As([w EXCEPT !.toks = Without(@, i)]) /\ exp = "bad"
         \/ w.form # "data" /\ c = As([w EXCEPT !.errs = Append(@, <<97>>)]) /\ exp = "bad"
         \/ w.errs # <<>> /\ c = As([w EXCEPT !.errs = Tail(@)]) /\ exp = (IF w.errs = Append(Tail(w.errs), <<1>>) THEN "good" ELSE "bad")
         \/ Len(w.errs) = 2 /\ w.errs[1] # w.errs[2] /\ c = As([w EXCEPT !.errs = <<@[2], @[1]>>]) /\ exp = "bad"
  ELSE m = [pc |-> "doc"] /\ c = NoCase /\ exp = ""

Pick(pc, f, S, next) == m.pc = pc /\ \E x \in S : c' = [c EXCEPT ![f] = x] /\ m' = [pc |-> next] /\ UNCHANGED exp
Emit == m.pc = "emit" /\ PrintT("CASE " \o ToJson(c)) /\ m' = [pc |-> "over"] /\ UNCHANGED <<c, exp>>
Choose == Pick("doc", "doc", Docs, "vars") \/ Pick("vars", "vars", Vars, "name") \/ Pick("name", "name", Names, "entry")
          \/ Pick("entry", "entry", Entries, "setup") \/ Pick("setup", "setup", Setups, "emit")
Form == Conf = "form" /\ E!Step /\ UNCHANGED <<c, exp>>
Over == (IF Conf = "form" THEN E!Decided ELSE m.pc = "over") /\ UNCHANGED <<c, m, exp>>
Next == (IF Conf = "form" THEN Form ELSE Choose \/ Emit) \/ Over
Spec == Init /\ [][Next]_<<c, m, exp>>
GenInv == Conf = "form" => E!EnvInv /\ (E!Decided => m.pc = exp)
=============================================================================
