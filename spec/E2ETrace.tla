------------------------------ MODULE E2ETrace ------------------------------
(* Judges what clients saw, request by request. *)
EXTENDS E2ECore, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
vars == <<tid, done>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ done = FALSE
Judge == /\ ~ done
         /\ LET bad == Broken(T.q, T.ev[1])
            IN PrintT(IF bad = {} THEN <<"ACCEPT", T.id>> ELSE <<"VIOL", T.id, 1, bad>>)
         /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Judge]_vars
=============================================================================
