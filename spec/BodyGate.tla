------------------------------ MODULE BodyGate ------------------------------
(***************************************************************************)
(* Progress of a streaming body over a source whose data becomes available *)
(* over time (B12).                                                        *)
(*                                                                         *)
(* The source has `supplied` bytes so far (and `ended`, or not); a source  *)
(* call with nothing to return waits.  A Read by body b asking for k bytes *)
(* may wait only as long as the source has not supplied them:              *)
(*    Must(b)  the Read of b has to return without anything more happening *)
(* A recorded "quiet" event says that nothing happened for long enough     *)
(* that every Read that had to return would have.                          *)
(*                                                                         *)
(* Mode "gen": random walks, printed as scenarios; "trace": validation.    *)
(***************************************************************************)
EXTENDS BodyCore, TLC, Json, IOUtils

CONSTANTS Mode, MaxB, Depth, Total, Held

Traces == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE_FILE) ELSE <<>>

VARIABLES tid, l, fin, L, supplied, ended, pos, there, pend, got, hist
vars == <<tid, l, fin, L, supplied, ended, pos, there, pend, got, hist>>
state == <<L, supplied, ended, pos, there, pend>>

Bodies == 1..MaxB

(* pend[b] = -1: no Read under way *)
MustK(b, k) == \/ k = 0
               \/ pos[b] + k <= supplied
               \/ ended
               \/ L >= 0 /\ supplied >= L
Must(b) == MustK(b, pend[b])
Pending == {b \in Bodies : pend[b] >= 0}

Init == /\ tid \in (IF Mode = "trace" THEN 1..Len(Traces) ELSE {0})
        /\ l = 1 /\ fin = FALSE
        /\ L \in (IF Mode = "trace" THEN {Traces[tid].L} ELSE {-1, Total, Total - 1})
        /\ supplied = 0 /\ ended = FALSE
        /\ pos = [b \in Bodies |-> 0]
        /\ there = {1}
        /\ pend = [b \in Bodies |-> -1]
        /\ got = [b \in Bodies |-> 0]
        /\ hist = <<>>

Supply(n) == supplied' = supplied + n /\ UNCHANGED <<L, ended, pos, there, pend>>
EndIt     == ended' = TRUE /\ UNCHANGED <<L, supplied, pos, there, pend>>
CopyB(b, c) == there' = there \cup {c} /\ pos' = [pos EXCEPT ![c] = pos[b]] /\ UNCHANGED <<L, supplied, ended, pend>>
Call(b, k) == pend' = [pend EXCEPT ![b] = k] /\ UNCHANGED <<L, supplied, ended, pos, there>>
Return(b, n) == /\ pend' = [pend EXCEPT ![b] = -1]
                /\ pos' = [pos EXCEPT ![b] = @ + n]
                /\ UNCHANGED <<L, supplied, ended, there>>

Stop == IF L < 0 THEN supplied ELSE Min2(L, supplied)
(* ev.calls: calls of the source made by this Read; got[b]: bytes the source *)
(* had given when it began.                                                  *)
ReturnOK(ev) ==
  LET b == ev.b
      p == pos[b]
      k == pend[b]
  IN /\ ev.n >= 0 /\ ev.n <= k /\ p + ev.n <= Stop /\ DataOK(p, ev)
     /\ \/ ev.e = "nil" /\ (ev.n > 0 \/ k = 0)
        \/ ev.e = "eof" /\ p + ev.n = Stop /\ (ended \/ (L >= 0 /\ supplied >= L))
SourceOK(ev) == (pos[ev.b] + pend[ev.b] <= got[ev.b]) => ev.calls = 0

Report(ls) == PrintT(<<"VIOL", Traces[tid].id, l, ls>>) /\ fin' = TRUE /\ UNCHANGED <<state, got>>
Step ==
  /\ Mode = "trace" /\ ~ fin /\ l <= Len(Traces[tid].ev)
  /\ LET ev == Traces[tid].ev[l]
         ok == fin' = FALSE
     IN CASE ev.op = "supply" -> Supply(ev.n) /\ UNCHANGED got /\ ok
          [] ev.op = "end"    -> EndIt /\ UNCHANGED got /\ ok
          [] ev.op = "copy"   -> CopyB(ev.b, ev.c) /\ UNCHANGED got /\ ok
          [] ev.op = "call"   -> Call(ev.b, ev.k) /\ got' = [got EXCEPT ![ev.b] = ev.got] /\ ok
          [] ev.op = "ret"    -> IF ~ ReturnOK(ev) THEN Report({"B01"})
                                 ELSE IF ~ SourceOK(ev) THEN Report({"B12"})
                                 ELSE Return(ev.b, ev.n) /\ UNCHANGED got /\ ok
          [] ev.op = "quiet"  ->
               LET late == {b \in Pending : Must(b)}
               IN IF late = {} THEN UNCHANGED <<state, got>> /\ ok
                  ELSE Report({"B12"} \cup (IF Pending # late THEN {"held"} ELSE {}))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, hist>>
Accept == /\ Mode = "trace" /\ ~ fin /\ l = Len(Traces[tid].ev) + 1
          /\ PrintT(<<"ACCEPT", Traces[tid].id>>) /\ fin' = TRUE
          /\ UNCHANGED <<tid, l, state, got, hist>>

(* Generation: Reads that have to return do, delivering what was asked for. *)
Note(op) == hist' = Append(hist, op)
Settle == {b \in Pending : Must(b)}
Gen ==
  /\ Mode = "gen" /\ ~ fin /\ Len(hist) < Depth
  /\ IF Settle # {}
     THEN LET b == CHOOSE b \in Settle : \A c \in Settle : b <= c
          IN /\ Return(b, Min2(pend[b], Max2(0, Stop - pos[b])))
             /\ UNCHANGED hist
     ELSE \/ \E n \in 1..3 : /\ ~ ended /\ supplied + n <= Total
                             /\ Supply(n) /\ Note([op |-> "supply", n |-> n])
          \/ ~ ended /\ supplied = Total /\ EndIt /\ Note([op |-> "end"])
          \/ \E b \in there \ Pending, k \in 0..4 :
               \* (a copy that lags behind one waiting in the source is studied separately)
               /\ Held \/ \A a \in Pending : k > 0 /\ pos[b] + k >= pos[a] + pend[a]
               /\ Call(b, k)
               /\ Note([op |-> "read", b |-> b, k |-> k, must |-> MustK(b, k)])
          \/ \E b \in there \ Pending :
               /\ Pending = {} /\ there # Bodies
               /\ LET c == Cardinality(there) + 1
                  IN CopyB(b, c) /\ Note([op |-> "copy", b |-> b, c |-> c])
  /\ UNCHANGED <<tid, l, fin, got>>
Out == /\ Mode = "gen" /\ ~ fin /\ Len(hist) = Depth /\ Settle = {}
       /\ PrintT("SCN " \o ToJson([L |-> L, nb |-> MaxB, total |-> Total, ops |-> hist]))
       /\ fin' = TRUE
       /\ UNCHANGED <<tid, l, state, got, hist>>
\* Settle may be non-empty at the end of the walk: let the Reads return first
Drain == /\ Mode = "gen" /\ ~ fin /\ Len(hist) = Depth /\ Settle # {}
         /\ LET b == CHOOSE b \in Settle : TRUE IN Return(b, Min2(pend[b], Max2(0, Stop - pos[b])))
         /\ UNCHANGED <<tid, l, fin, got, hist>>

Next == Step \/ Accept \/ Gen \/ Out \/ Drain
Spec == Init /\ [][Next]_vars
=============================================================================
