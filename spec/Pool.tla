-------------------------------- MODULE Pool --------------------------------
(* A pool of schema copies.  Every instance has its own request state: the   *)
(* request being answered, the calls it made, its response buffer, its       *)
(* cache.  Instances are made from idle instances, at any time of the life   *)
(* of the others, and take steps at resolver calls in any interleaving.      *)
(*                                                                           *)
(* TLC explores all interleavings of the bounded pool and shows that each    *)
(* answer is the one the request has alone; a sample of the behaviours (all  *)
(* of them when few) is printed and replayed on the real code, one action at *)
(* a time, with the resolvers held at their calls.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Size == atoi(IOEnv.SIZE)      \* number of actions in a behaviour
MaxInst == 3
MaxCalls == 2

VARIABLES inst,    \* sequence of instances
          done,    \* answers that were given: <<instance, request number, response>>
          hist
vars == <<inst, done, hist>>

New(parent, known) == [parent |-> parent, nr |-> 0, busy |-> FALSE, calls |-> 0, buf |-> <<>>, known |-> known]
Init == inst = <<New(0, {})>> /\ done = <<>> /\ hist = <<>>

Act(k, i) == hist' = Append(hist, <<k, i>>)
More == Len(hist) < Size

\* a copy takes over the definition of the schema, never the state of a request; what it remembers of documents does not matter
Copy(i) ==
  /\ More /\ ~inst[i].busy /\ Len(inst) < MaxInst
  /\ inst' = Append(inst, New(i, {}))
  /\ Act("copy", i) /\ UNCHANGED done
Begin(i) ==
  /\ More /\ ~inst[i].busy
  /\ inst' = [inst EXCEPT ![i].busy = TRUE, ![i].nr = @ + 1, ![i].calls = 0, ![i].buf = <<>>]
  /\ Act("begin", i) /\ UNCHANGED done
Call(i) ==
  /\ More /\ inst[i].busy /\ inst[i].calls < MaxCalls
  /\ inst' = [inst EXCEPT ![i].calls = @ + 1, ![i].buf = Append(@, <<i, inst[i].nr, inst[i].calls + 1>>)]
  /\ Act("call", i) /\ UNCHANGED done
End(i) ==
  /\ More /\ inst[i].busy
  /\ inst' = [inst EXCEPT ![i].busy = FALSE, ![i].known = @ \cup {inst[i].nr}]
  /\ done' = Append(done, <<i, inst[i].nr, inst[i].calls, inst[i].buf>>)
  /\ Act("end", i)
Emit ==
  /\ Len(hist) = Size /\ \E j \in DOMAIN hist : hist[j][1] = "copy"
  /\ PrintT("CASE " \o ToJson(hist))
  /\ hist' = Append(hist, <<"stop", 0>>) /\ UNCHANGED <<inst, done>>

Next == Emit \/ \E i \in DOMAIN inst : Copy(i) \/ Begin(i) \/ Call(i) \/ End(i)
Spec == Init /\ [][Next]_vars

\* the answer of a request is made of its own steps only, all of them, in order
Alone(i, nr, calls) == [k \in 1..calls |-> <<i, nr, k>>]
Independent == \A j \in DOMAIN done : done[j][4] = Alone(done[j][1], done[j][2], done[j][3])
\* nothing of another instance is in a buffer
Own == \A i \in DOMAIN inst : \A k \in DOMAIN inst[i].buf : inst[i].buf[k][1] = i /\ inst[i].buf[k][2] = inst[i].nr
\* an instance answers its requests one after the other
Ordered == \A j, k \in DOMAIN done : j < k /\ done[j][1] = done[k][1] => done[j][2] < done[k][2]
\* behaviours differ in more than the order of actions that are over: used to count only
Overlapping == Cardinality({i \in DOMAIN inst : inst[i].busy}) >= 2
Inv == Independent /\ Own /\ Ordered
=============================================================================
