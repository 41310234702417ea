------------------------------ MODULE ArgsTrace ------------------------------
(* Trace validation of argument binding, see Args and ExecTrace             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)

VARIABLES ci, m
A == INSTANCE Args WITH C <- Cases[ci]

Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Count(a, a[j]) = Count(b, a[j])

\* the fields up to the first one that is refused; what follows that is left open
Fs == Cases[ci].fields
N == IF m.failed > 0 THEN m.failed ELSE Len(Fs)
Diff(o) ==
  IF o.crash # "" THEN "crash: " \o o.crash
  ELSE IF o.env # "" THEN "envelope: " \o o.env
  ELSE IF \E j \in DOMAIN m.got : o.got[j].calls # 1 THEN "resolver not called exactly once"
  ELSE IF m.failed > 0 /\ o.got[m.failed].calls # 0 THEN "resolver called although an argument is not a value of its type"
  ELSE IF \E j \in DOMAIN m.got : o.got[j].toks # m.got[j][1] \o m.got[j][2] \o m.got[j][3] THEN "arguments received"
  ELSE IF \E j \in DOMAIN m.got : o.got[j].data # "ok" THEN "data"
  ELSE IF m.failed > 0 /\ o.got[m.failed].data \notin {"null"} THEN "data of the refused field"
  ELSE IF m.failed = 0 /\ o.errs # <<>> THEN "unexpected error"
  ELSE IF m.failed > 0 /\ (o.errs = <<>> \/ o.errs[1] # <<Fs[m.failed].alias>>) THEN "no error at the refused field"
  ELSE IF m.failed > 0 /\ Cardinality({j \in DOMAIN o.errs : o.errs[j] = <<Fs[m.failed].alias>>}) # 1 THEN "several errors at the refused field"
  ELSE IF m.failed = 0 /\ ~SameBag(m.looks, o.looks) THEN "files looked up"
  ELSE ""

Report(d) ==
  IF d = "" THEN PrintT("OK " \o ToString(ci))
  ELSE PrintT("MISMATCH " \o ToString(ci) \o " " \o d \o "|" \o ToJson([got |-> m.got, looks |-> m.looks, failed |-> m.failed]))

Init == ci \in DOMAIN Cases /\ m = A!InitM
Compare ==
  /\ m.pc = "done"
  /\ Report(Diff(Obss[ci]))
  /\ m' = [m EXCEPT !.pc = "compared"]
  /\ UNCHANGED ci
Finished == m.pc = "compared" /\ UNCHANGED <<ci, m>>
Next == (A!Step /\ UNCHANGED ci) \/ Compare \/ Finished
Spec == Init /\ [][Next]_<<ci, m>>
Inv == m.pc = "compared" \/ A!ArgsInv
=============================================================================
