---------------------------- MODULE EnvelopeTrace ----------------------------
(* Trace validation of answers, see Envelope. An observation is the sequence *)
(* of the answers to the requests of a case, made one after another on one   *)
(* schema, and of the answer to an ordinary request after them.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)

VARIABLES ci, n, m
E == INSTANCE Envelope WITH C <- Obss[ci].answers[n]

O == Obss[ci]
\* an answer that is too long is looked at by the harness: a.long says what is wrong with it
Early == IF O.crash # "" THEN "crash: " \o O.crash
         ELSE IF O.changed # "" THEN O.changed
         ELSE IF O.after # O.fresh THEN "an ordinary request is answered differently afterwards"
         ELSE IF \E i \in DOMAIN O.answers : O.answers[i].long # "" THEN "envelope: " \o O.answers[CHOOSE i \in DOMAIN O.answers : O.answers[i].long # ""].long
         ELSE ""
Report(d, x) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci)) ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson(x))

Init == ci \in DOMAIN Cases /\ n = 0 /\ m = [pc |-> "start", why |-> ""]
Begin ==
  /\ m.pc = "start"
  /\ IF Early # "" THEN Report(Early, <<>>) /\ m' = [m EXCEPT !.pc = "compared"] /\ UNCHANGED n
     ELSE IF n = Len(O.answers) THEN Report("", <<>>) /\ m' = [m EXCEPT !.pc = "compared"] /\ UNCHANGED n
     ELSE n' = n + 1 /\ m' = E!InitM
  /\ UNCHANGED ci
Judge ==
  /\ m.pc \in {"good", "bad"}
  /\ IF m.pc = "bad" THEN Report("envelope: " \o m.why, [answer |-> n, at |-> m.j]) /\ m' = [m EXCEPT !.pc = "compared"]
     ELSE m' = [pc |-> "start", why |-> ""]
  /\ UNCHANGED <<ci, n>>
Finished == m.pc = "compared" /\ UNCHANGED <<ci, n, m>>
Next == Begin \/ Judge \/ (m.pc \in {"read", "end"} /\ E!Step /\ UNCHANGED <<ci, n>>) \/ Finished
Spec == Init /\ [][Next]_<<ci, n, m>>
Inv == (m.pc \in {"read", "end", "good", "bad"}) => E!EnvInv
=============================================================================
