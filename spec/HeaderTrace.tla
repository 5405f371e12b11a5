------------------------------ MODULE HeaderTrace ------------------------------
(* Validates recorded uses of the header helpers against HeaderCore. *)
EXTENDS HeaderCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [k \in {} |-> <<>>]
Step == /\ l <= Len(T.ev)
        /\ LET s == HSucc(st, T.ev[l])
           IN IF s # {} THEN st' \in s /\ l' = l + 1
              ELSE PrintT(<<"VIOL", T.id, l, {"R07"}>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED st
        /\ UNCHANGED tid
Finish == /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", T.id>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
