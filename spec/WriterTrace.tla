----------------------------- MODULE WriterTrace -----------------------------
(* Validates recorded traces of the wrapping Writer against WriterCore. *)
EXTENDS WriterCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ st = W0(Traces[tid].env)
(* constructing the Writer *)
New == /\ l = 0
       /\ IF T.made /\ W03Caps(T.env.caps, T.has) THEN l' = 1
          ELSE PrintT(<<"VIOL", T.id, 0, {"W03"}>>) /\ l' = Len(T.ev) + 2
       /\ UNCHANGED <<tid, st>>
Step == /\ l \in 1..Len(T.ev)
        /\ LET ev == T.ev[l]
               bad == Broken(st, ev)
           IN IF bad = {} THEN l' = l + 1 /\ st' = WNext(st, ev)
              ELSE PrintT(<<"VIOL", T.id, l, bad>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED st
        /\ UNCHANGED tid
Finish == /\ l = Len(T.ev) + 1 /\ PrintT(<<"ACCEPT", T.id>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
Next == New \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
