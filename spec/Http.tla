-------------------------------- MODULE Http --------------------------------
(* From an HTTP request to the requests it denotes.  C is the case, m the    *)
(* machine.                                                                  *)
(*                                                                           *)
(* C.method (upper case), C.ctype; C.url = [q, o, v], C.form = "ok" or "err" *)
(* (the lookup of the form field fails); C.body is the JSON of the body or   *)
(* of the form field: [k |-> "empty"], [k |-> "bad"] (not JSON), or a tree:  *)
(*   obj (ms: sequence of [key, v]), arr (xs), doc / op / vars (n: number of *)
(*   a document, an operation name, an object of variables), str, num, bool, *)
(*   null, list (an array that is no batch).                                 *)
(* Documents, names and variables are numbered, 0 is the empty one.          *)
(*                                                                           *)
(* m.runs: the requests that run, <<document, name, variables>>; m.shape:    *)
(* "one" or "batch"; m.answers: for each answer the number of its run, 0 for *)
(* an error response.                                                        *)
EXTENDS Naturals, Sequences

VARIABLES C, m

Body == C.body
FromForm == C.method # "GET" /\ C.ctype = "multipart/form-data"
FromBody == C.ctype = "application/json" \/ (C.method # "GET" /\ C.ctype \in {"text/plain", "multipart/form-data"})

\* the members of an object with a key; the cases have each key at most once
With(o, key) == {j \in DOMAIN o.ms : o.ms[j].key = key}
Has(o, key) == With(o, key) # {}
Get(o, key) == o.ms[CHOOSE j \in With(o, key) : TRUE].v

\* does a value denote a request, and which one
Absent(o, key) == ~Has(o, key) \/ Get(o, key).k = "null"
Denotes(t) ==
  /\ t.k = "obj"
  /\ Has(t, "query") /\ Get(t, "query").k = "doc"
  /\ Absent(t, "operationName") \/ Get(t, "operationName").k = "op"
  /\ Absent(t, "variables") \/ Get(t, "variables").k = "vars"
Nr(o, key) == IF Absent(o, key) THEN 0 ELSE Get(o, key).n
RunOf(t) == <<Get(t, "query").n, Nr(t, "operationName"), Nr(t, "variables")>>

InitM == [pc |-> "route", shape |-> "one", runs |-> <<>>, answers |-> <<>>, at |-> 1]

Answer(mm, run) ==
  [mm EXCEPT !.runs = IF run = <<>> THEN @ ELSE Append(@, run),
             !.answers = Append(@, IF run = <<>> THEN 0 ELSE Len(mm.runs) + 1)]
Refuse(mm) == [Answer(mm, <<>>) EXCEPT !.pc = "done"]

Route ==
  /\ m.pc = "route"
  /\ m' = IF ~FromBody THEN [Answer(m, <<C.url.q, C.url.o, C.url.v>>) EXCEPT !.pc = "done"]
          ELSE IF FromForm /\ C.form = "err" THEN Refuse(m)
          ELSE [m EXCEPT !.pc = "read"]
Read ==
  /\ m.pc = "read"
  /\ m' = IF Body.k \in {"empty", "bad"} THEN Refuse(m)
          ELSE IF Body.k = "arr" THEN [m EXCEPT !.pc = "member", !.shape = "batch"]
          ELSE IF Denotes(Body) THEN [Answer(m, RunOf(Body)) EXCEPT !.pc = "done"]
          ELSE Refuse(m)
Member ==
  /\ m.pc = "member" /\ m.at <= Len(Body.xs)
  /\ m' = [Answer(m, IF Denotes(Body.xs[m.at]) THEN RunOf(Body.xs[m.at]) ELSE <<>>) EXCEPT !.at = @ + 1]
End == m.pc = "member" /\ m.at > Len(Body.xs) /\ m' = [m EXCEPT !.pc = "done"]

Step == Route \/ Read \/ Member \/ End

Count(s, x) == LET f[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE f[j - 1] + (IF s[j] = x THEN 1 ELSE 0) IN f[Len(s)]
HttpInv ==
  /\ Len(m.runs) + Count(m.answers, 0) = Len(m.answers)
  /\ m.pc = "done" =>
     /\ m.shape = "one" => Len(m.answers) = 1
     /\ m.shape = "batch" => Body.k = "arr" /\ FromBody /\ Len(m.answers) = Len(Body.xs)
     \* a member is answered in its place, whatever the others are
     /\ m.shape = "batch" => \A j \in DOMAIN m.answers : (m.answers[j] # 0) = Denotes(Body.xs[j]) /\ (m.answers[j] # 0 => m.runs[m.answers[j]] = RunOf(Body.xs[j]))
     \* the body of a GET is only read when it is JSON
     /\ C.method = "GET" /\ C.ctype # "application/json" => m.runs = <<<<C.url.q, C.url.o, C.url.v>>>>
     /\ FromBody /\ (Body.k \in {"empty", "bad"} \/ (FromForm /\ C.form = "err")) => m.runs = <<>>
=============================================================================
