------------------------------ MODULE HttpTrace ------------------------------
(* Trace validation of HTTP requests, see Http.  The observation has, for    *)
(* every document, name and variables, what resolving them directly does on  *)
(* a schema of its own (ref: response text, resolver calls, messages of the  *)
(* errors).                                                                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)

VARIABLES ci, m
H == INSTANCE Http WITH C <- Cases[ci]

Ref(o, run) == o.ref[run[1] + 1][run[2] + 1][run[3] + 1]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* o.texts: the answers; o.shape; o.calls; o.errs: messages of the returned errors; o.emsgs: for every answer what it is as an error
\* response: <<>> when it is not one, otherwise the messages in it
Diff(o) ==
  IF o.crash # "" THEN "crash: " \o o.crash
  ELSE IF o.env # "" THEN o.env
  ELSE IF o.shape # m.shape THEN "shape of the response"
  ELSE IF Len(o.texts) # Len(m.answers) THEN "number of answers"
  ELSE IF \E j \in DOMAIN m.answers : m.answers[j] # 0 /\ o.texts[j] # Ref(o, m.runs[m.answers[j]]).text THEN "not the response of the request that is denoted"
  ELSE IF \E j \in DOMAIN m.answers : m.answers[j] = 0 /\ Len(o.emsgs[j]) # 1 THEN "not an error response"
  ELSE IF o.calls # Flat([j \in DOMAIN m.runs |-> Ref(o, m.runs[j]).calls]) THEN "resolvers that ran"
  ELSE IF o.errs # Flat([j \in DOMAIN m.answers |-> IF m.answers[j] = 0 THEN o.emsgs[j] ELSE Ref(o, m.runs[m.answers[j]]).errs]) THEN "errors returned"
  ELSE ""

Report(d) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson([shape |-> m.shape, runs |-> m.runs, answers |-> m.answers]))

Init == ci \in DOMAIN Cases /\ m = H!InitM
Compare ==
  /\ m.pc = "done"
  /\ Report(Diff(Obss[ci]))
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (H!Step /\ UNCHANGED ci) \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ H!HttpInv
=============================================================================
