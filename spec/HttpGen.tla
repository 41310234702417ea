------------------------------- MODULE HttpGen -------------------------------
(* All HTTP requests over small alphabets: methods, content types, bodies    *)
(* with every combination of members, batches of up to two members.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Size == atoi(IOEnv.SIZE)          \* members of a batch

VARIABLES c, m
H == INSTANCE Http WITH C <- c

K(k) == [k |-> k]
N(k, n) == [k |-> k, n |-> n]
None == <<>>
Mem(key, vs) == {None} \cup {<<[key |-> key, v |-> v]>> : v \in vs}
Queries == {N("doc", 1), N("doc", 2), K("null"), K("num"), K("list")}
Ops == {N("op", 1), K("null"), K("num"), K("list")}
Vars == {N("vars", 1), K("null"), K("str"), K("list"), K("bool")}
Objs == {[k |-> "obj", ms |-> a \o b \o d] : a \in Mem("query", Queries), b \in Mem("operationName", Ops), d \in Mem("variables", Vars)}
Scalars == {K("str"), K("num"), K("bool"), K("null")}
\* members of batches: fewer
Small == {[k |-> "obj", ms |-> <<[key |-> "query", v |-> N("doc", 1)]>>],
          [k |-> "obj", ms |-> <<[key |-> "query", v |-> N("doc", 2)], [key |-> "variables", v |-> N("vars", 1)]>>],
          [k |-> "obj", ms |-> <<[key |-> "query", v |-> N("doc", 3)], [key |-> "operationName", v |-> N("op", 1)]>>],
          [k |-> "obj", ms |-> <<>>],
          [k |-> "obj", ms |-> <<[key |-> "query", v |-> K("null")]>>],
          K("null"), K("num"), [k |-> "arr", xs |-> <<>>]}
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE Seqs(S, n - 1) \cup {Append(s, x) : s \in {t \in Seqs(S, n - 1) : Len(t) = n - 1}, x \in S}
Batches == {[k |-> "arr", xs |-> s] : s \in Seqs(Small, Size)}
Methods == {"GET", "POST", "PUT"}
CTypes == {"", "application/json", "text/plain", "multipart/form-data", "application/graphql"}
Urls == {[q |-> 2, o |-> 0, v |-> 1], [q |-> 0, o |-> 0, v |-> 0]}

Bodies == Objs \cup Scalars \cup Batches \cup {K("empty"), K("bad")}
Init == /\ c \in [method : Methods, ctype : CTypes, url : Urls, form : {"ok", "err"}, body : Bodies]
        \* what is not looked at does not vary
        /\ (c.form = "err") => c.ctype = "multipart/form-data" /\ c.body.k \in {"empty", "null", "bad"}
        /\ (c.url.q = 0) => c.body.k \in {"empty", "null"}
        /\ (~H!FromBody /\ c.url.q # 0) => c.body.k \in {"empty", "bad", "num"} \/ c.body = [k |-> "obj", ms |-> <<[key |-> "query", v |-> N("doc", 1)]>>]
        /\ m = H!InitM
Emit == m.pc = "done" /\ PrintT("CASE " \o ToJson(c)) /\ m' = [m EXCEPT !.pc = "out"] /\ UNCHANGED c
Over == m.pc = "out" /\ UNCHANGED <<c, m>>
Next == (H!Step /\ UNCHANGED c) \/ Emit \/ Over
Spec == Init /\ [][Next]_<<c, m>>
GenInv == H!HttpInv
=============================================================================
