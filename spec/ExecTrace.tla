----------------------------- MODULE ExecTrace -----------------------------
(* Trace validation: every case the harness ran is one initial state; the   *)
(* executor machine runs on it and its result is compared with what was     *)
(* observed of the real code.  Mask says which observations are compared.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, ExecObs, ExecTypes

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)      \* sequence of strings

VARIABLES ci, m
E == INSTANCE Exec WITH C <- Cases[ci], Table <- Fields

Report(d) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson([out |-> m.out, errs |-> m.errs, calls |-> m.calls, ctxs |-> m.ctxs, reads |-> m.reads, args |-> m.args, trace |-> m.trace]))

Init == ci \in DOMAIN Cases /\ m = E!InitM
Compare ==
  /\ m.pc = "done"
  /\ Report(DiffOf(m, Obss[ci], Cases[ci].tracing, Mask))
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (E!Step /\ UNCHANGED ci) \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ E!ExecInv
=============================================================================
