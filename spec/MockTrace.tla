------------------------------ MODULE MockTrace ------------------------------
(***************************************************************************)
(* Validates recorded uses of the mock reader against MockCore.            *)
(***************************************************************************)
EXTENDS MockCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState(T.scn)

Step ==
  /\ l <= Len(T.ev)
  /\ LET ev == T.ev[l]
         succ == Succ(st, ev)
     IN IF succ # {}
        THEN /\ st' \in succ
             /\ l' = IF Ends(st, ev) THEN Len(T.ev) + 1 ELSE l + 1
        ELSE /\ PrintT(<<"VIOL", T.id, l, {"M01"}>>)
             /\ l' = Len(T.ev) + 2
             /\ UNCHANGED st
  /\ UNCHANGED tid
Finish ==
  /\ l = Len(T.ev) + 1
  /\ PrintT(<<"ACCEPT", T.id>>)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, st>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == st.at \in 0..Len(st.script)
=============================================================================
