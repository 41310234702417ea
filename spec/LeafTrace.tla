------------------------------ MODULE LeafTrace ------------------------------
(* Trace validation of leaf values, see Leaf                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)
Both == [i \in DOMAIN Cases |-> [vals |-> Cases[i].vals, texts |-> IF "texts" \in DOMAIN Obss[i] THEN Obss[i].texts ELSE <<>>]]

VARIABLES ci, m
L == INSTANCE Leaf WITH C <- Both[ci]

Bad == IF Obss[ci].crash # "" THEN "crash: " \o Obss[ci].crash ELSE Obss[ci].env
Report(d, v) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|value " \o ToString(v))

Init == ci \in DOMAIN Cases /\ m = L!InitM
Skip ==
  /\ m.pc = "value" /\ m.v = 1 /\ Bad # ""
  /\ Report(Bad, 0) /\ m' = [m EXCEPT !.pc = "compared"] /\ UNCHANGED ci
Compare ==
  /\ m.pc = "done"
  /\ Report(m.bad, m.v)
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (Bad = "" /\ L!Step /\ UNCHANGED ci) \/ Skip \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ Bad # "" \/ L!LeafInv
=============================================================================
