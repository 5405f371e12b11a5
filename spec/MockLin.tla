------------------------------- MODULE MockLin -------------------------------
(***************************************************************************)
(* Concurrent use of one mock reader: some order of the calls, consistent  *)
(* with real time, must explain every result (see BodyLin).                *)
(***************************************************************************)
EXTENDS MockCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done, st
vars == <<tid, done, st>>
Evs == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces)
        /\ done = {}
        /\ st = InitState(Traces[tid].scn)
Ready == {i \in 1..Len(Evs) \ done : \A j \in 1..Len(Evs) \ done : ~ (Evs[j].ret < Evs[i].call)}
Linearize ==
  /\ ~ Traces[tid].race
  /\ \E i \in Ready : /\ st' \in Succ(st, Evs[i])
                      /\ done' = done \cup {i}
  /\ UNCHANGED tid
Accept ==
  /\ Cardinality(done) = Len(Evs)
  /\ ~ Traces[tid].race
  /\ PrintT(<<"ACCEPT", Traces[tid].id>>)
  /\ UNCHANGED vars
Next == Linearize \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
