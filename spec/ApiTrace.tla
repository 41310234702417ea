------------------------------- MODULE ApiTrace -------------------------------
(* Trace validation of histories of set up calls, see Api: the answer to     *)
(* every call, and what can be seen after the last one.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)      \* sequence of strings

VARIABLES ci, m, done
A == INSTANCE Api WITH C <- Cases[ci]

Set(s) == {s[j] : j \in DOMAIN s}
O == Obss[ci]
Masked(x) == x \in Set(Mask)
Use(t) == O.uses[CHOOSE j \in DOMAIN O.uses : O.uses[j].t = t]
BadUse(t) == LET u == Use(t) IN
  IF Masked("types") /\ m.intro /\ (u.ty # A!UseType(t) \/ u.arg # A!UseType(t)) THEN "type of " \o t
  ELSE IF u.values # <<A!UseValue(t, 1), A!UseValue(t, 2)>> THEN "values of " \o t
  ELSE IF \E j \in DOMAIN u.lits : u.lits[j][2] # A!UseMember(t, u.lits[j][1]) THEN "members of " \o t \o " as literals"
  ELSE IF \E j \in DOMAIN u.vars : u.vars[j][2] # A!UseMember(t, u.vars[j][1]) THEN "members of " \o t \o " in variables"
  ELSE IF A!UseRaw(t) # "" /\ u.raw # A!UseRaw(t) THEN "plain value of " \o t
  ELSE ""
Enums == {[n |-> O.enums[j].n, ks |-> Set(O.enums[j].ks)] : j \in DOMAIN O.enums}
Dirs == LET own == {j \in DOMAIN O.dirs : O.dirs[j].n \notin {"skip", "include"}} IN
        {[n |-> IF O.dirs[j].n = "_x" THEN "under" ELSE O.dirs[j].n, locs |-> Set(O.dirs[j].locs), args |-> Set(O.dirs[j].args)] : j \in own}
Twice == \E i, j \in DOMAIN O.enums : i # j /\ O.enums[i].n = O.enums[j].n
Early ==
  IF O.crash # "" THEN "crash: " \o O.crash
  ELSE IF O.results # m.res THEN (IF Masked("exec") THEN "answers to the calls" ELSE "")
  ELSE IF O.bad # "" THEN O.bad
  ELSE IF O.copy # "" THEN O.copy
  ELSE IF ~m.open /\ (O.parsed # m.parsed \/ O.intro # m.intro) THEN "parsed"
  ELSE ""
Diff ==
  IF Early # "" THEN Early
  ELSE IF ~m.parsed \/ m.open \/ O.results # m.res THEN ""
  ELSE IF Masked("types") /\ m.intro /\ (Enums # A!ListedEnums \/ Twice \/ \E j \in DOMAIN O.enums : Cardinality(Set(O.enums[j].ks)) # Len(O.enums[j].ks)) THEN "listed enums"
  ELSE IF Masked("types") /\ m.intro /\ (Dirs # A!ListedDirs \/ Len(O.dirs) # Cardinality(A!ListedDirs) + 2) THEN "listed directives"
  ELSE IF m.q # "QUse" THEN ""
  ELSE IF \E j \in DOMAIN A!Uses : BadUse(A!Uses[j]) # "" THEN BadUse(A!Uses[CHOOSE j \in DOMAIN A!Uses : BadUse(A!Uses[j]) # ""])
  ELSE IF \E j \in DOMAIN O.probes : O.probes[j].r # A!UseDir(O.probes[j].n, O.probes[j].l, O.probes[j].a) THEN
    LET p == O.probes[CHOOSE j \in DOMAIN O.probes : O.probes[j].r # A!UseDir(O.probes[j].n, O.probes[j].l, O.probes[j].a)]
    IN "directive " \o p.n \o " at " \o p.l \o " gives " \o p.r
  ELSE ""

Init == ci \in DOMAIN Cases /\ m = A!InitM /\ done = FALSE
Compare ==
  /\ A!Done /\ ~done
  /\ IF Diff = "" THEN PrintT("OK " \o ToString(ci)) ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o Diff \o "|" \o ToJson([answers |-> m.res, why |-> m.what]))
  /\ done' = TRUE /\ UNCHANGED <<ci, m>>
Next == (A!Step /\ UNCHANGED <<ci, done>>) \/ Compare \/ (done /\ UNCHANGED <<ci, m, done>>)
Spec == Init /\ [][Next]_<<ci, m, done>>
Inv == A!ApiInv
=============================================================================
