----------------------------- MODULE ParserTrace -----------------------------
(* Trace validation of document acceptance, see Parser                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)

VARIABLES ci, m
P == INSTANCE Parser WITH C <- Cases[ci]

\* o.locs: line and column of every error that has them, o.calls: resolvers that ran, o.data: the data as text
Diff(o) ==
  IF o.crash # "" THEN "crash: " \o o.crash
  ELSE IF o.env # "" THEN "envelope: " \o o.env
  ELSE IF m.pc = "acc" /\ o.locs # <<>> THEN "a valid document is rejected"
  ELSE IF m.pc = "acc" /\ o.run # "" THEN o.run
  ELSE IF m.pc = "rej" /\ o.locs = <<>> THEN "an invalid document is accepted"
  ELSE IF m.pc = "rej" /\ o.calls # 0 THEN "resolvers run although the document is rejected"
  ELSE IF m.pc = "rej" /\ o.data # "{}" THEN "data although the document is rejected"
  ELSE IF m.pc = "rej" /\ LET R == P!Reached IN \A j \in DOMAIN o.locs : <<o.locs[j][1], o.locs[j][2]>> \notin R THEN "location of the error"
  ELSE ""

Report(d) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson([verdict |-> m.pc, tokens |-> m.n, point |-> m.point, expected |-> m.stack, at |-> IF m.point = 0 THEN <<>> ELSE LET p == P!PosOf(m.point) IN <<p.l, p.c>>]))

Init == ci \in DOMAIN Cases /\ m = P!InitM
Compare ==
  /\ m.pc \in {"acc", "rej", "any"}
  /\ Report(Diff(Obss[ci]))
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (P!Step /\ UNCHANGED ci) \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ P!ParserInv
=============================================================================
