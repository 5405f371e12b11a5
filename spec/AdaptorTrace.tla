----------------------------- MODULE AdaptorTrace -----------------------------
(* Validates recorded histories of requests against AdaptorCore. *)
EXTENDS AdaptorCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = A0
Step == /\ l <= Len(T.ev)
        /\ LET bad == ABroken(st, T.ev[l])
           IN IF bad = {} THEN l' = l + 1 /\ st' = ANext(st, T.ev[l])
              ELSE PrintT(<<"VIOL", T.id, l, bad>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED st
        /\ UNCHANGED tid
Finish == /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", T.id>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
