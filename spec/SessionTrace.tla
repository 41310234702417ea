---------------------------- MODULE SessionTrace ----------------------------
(* Histories of requests on one schema.  A request is answered by the        *)
(* executor machine alone: the state of the session is only the position in  *)
(* the history, so whatever the schema remembers (documents in the cache,    *)
(* request values, contexts, errors, half finished work after a panic) must  *)
(* not show.  Requests of the kind raw are outside of the executor's         *)
(* specification (malformed documents, introspection, HTTP bodies); for those *)
(* the observation says what differs from a schema that was just built.      *)
(*                                                                           *)
(* What resolvers and callers received (paths, arguments, errors) is read    *)
(* back after the last request of the history.                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, ExecObs, ExecTypes

Cases == JsonDeserialize(IOEnv.CASES)
Obss  == JsonDeserialize(IOEnv.OBS)
Mask  == JsonDeserialize(IOEnv.MASK)

\* the case of the executor for request r of history i
Reqs == [i \in DOMAIN Cases |-> [r \in DOMAIN Cases[i].reqs |->
          LET q == Cases[i].reqs[r] IN
          [ world |-> Cases[i].world, kind |-> q.kind, ops |-> q.ops, frags |-> q.frags, sels |-> q.sels, target |-> q.target,
            maxdepth |-> Cases[i].maxdepth, tracing |-> q.tracing, ctx |-> q.ctx, values |-> q.values ]]]

VARIABLES ci, ri, m
E == INSTANCE Exec WITH C <- Reqs[ci][ri], Table <- Fields

Idle == [pc |-> "idle"]
Init == ci \in DOMAIN Cases /\ ri = 1 /\ m = Idle

Obs == Obss[ci].steps[ri]
Raw == Reqs[ci][ri].kind = "raw"

Begin == m.pc = "idle" /\ ~Raw /\ Obss[ci].crash = "" /\ m' = E!InitM /\ UNCHANGED <<ci, ri>>
Work == m.pc \notin {"idle", "over"} /\ E!Step /\ UNCHANGED <<ci, ri>>

Advance(d, want) ==
  IF d = "" /\ ri < Len(Reqs[ci]) THEN ri' = ri + 1 /\ m' = Idle /\ UNCHANGED ci
  ELSE /\ IF d = "" THEN PrintT("OK " \o ToString(ci))
          ELSE PrintT("MISMATCH " \o ToString(ci) \o " request " \o ToString(ri) \o ": " \o d \o "|" \o want)
       /\ m' = [pc |-> "over"] /\ UNCHANGED <<ci, ri>>

Compare ==
  /\ m.pc = "done"
  /\ Advance(DiffOf(m, Obs, Reqs[ci][ri].tracing, Mask),
             ToJson([out |-> m.out, errs |-> m.errs, calls |-> m.calls, ctxs |-> m.ctxs, reads |-> m.reads, args |-> m.args, trace |-> m.trace]))
CompareRaw ==
  /\ m.pc = "idle" /\ Raw /\ Obss[ci].crash = ""
  /\ Advance(Obs.same, "the answer of a schema that was just built")
Died ==
  /\ m.pc = "idle" /\ Obss[ci].crash # ""
  /\ PrintT("MISMATCH " \o ToString(ci) \o " crash: " \o Obss[ci].crash \o "|")
  /\ m' = [pc |-> "over"] /\ UNCHANGED <<ci, ri>>
Over == m.pc = "over" /\ UNCHANGED <<ci, ri, m>>

Next == Begin \/ Work \/ Compare \/ CompareRaw \/ Died \/ Over
Spec == Init /\ [][Next]_<<ci, ri, m>>
Inv == m.pc \in {"idle", "over"} \/ E!ExecInv
=============================================================================
