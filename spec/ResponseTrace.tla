---------------------------- MODULE ResponseTrace ----------------------------
(* Validates recorded histories of package response against ResponseCore. *)
EXTENDS ResponseCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = R0(Traces[tid].nb, Traces[tid].nr, Traces[tid].nm)
Step == /\ l <= Len(T.ev)
        /\ LET ev == T.ev[l]
               bad == RBroken(st, ev)
           IN IF bad = {} THEN l' = l + 1 /\ st' = RNext(st, ev)
              ELSE PrintT(<<"VIOL", T.id, l, bad>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED st
        /\ UNCHANGED tid
Finish == /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", T.id>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
