------------------------------ MODULE BodyLin ------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories: is there an order of  *)
(* the calls, consistent with real time (a call that returned before       *)
(* another was made comes first), in which every result is one that        *)
(* BodyCore allows?  TLC searches the orders.                              *)
(*                                                                         *)
(* Close has two effects: the body is closed, and what it shares with its  *)
(* copies is released (the last release closes the source).  They need not *)
(* happen at the same instant; half: the calls of Close between the two.   *)
(*                                                                         *)
(* Histories that did not come to an end, or during which conflicting      *)
(* unsynchronized accesses were observed, carry hung / race and have no    *)
(* explanation.                                                            *)
(***************************************************************************)
EXTENDS BodyCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, done, half, st
vars == <<tid, done, half, st>>

Evs == Traces[tid].ev
Bad(t) == t.hung \/ t.race

Init == /\ tid \in 1..Len(Traces)
        /\ done = {} /\ half = {}
        /\ st = InitState(Traces[tid].env, Traces[tid].nb)

(* calls that may take effect next *)
Ready == {i \in 1..Len(Evs) \ done : \A j \in 1..Len(Evs) \ done : ~ (Evs[j].ret < Evs[i].call)}

Overlap(i) == \E j \in 1..Len(Evs) \ {i} : Evs[j].call < Evs[i].ret /\ Evs[i].call < Evs[j].ret

Whole(i) ==
  /\ st' \in IF Evs[i].op = "close" /\ half # {} /\ SourceUndisturbed(Evs[i])
             THEN CloseWith(st, Evs[i].b, Evs[i], TRUE) ELSE Succ(st, Evs[i])
  /\ done' = done \cup {i}
  /\ UNCHANGED half

First(i) ==
  /\ Evs[i].op = "close" /\ st.mode[Evs[i].b] \notin {"absent", "closed"}
  /\ Evs[i].ac = 0 /\ Overlap(i)
  /\ st' = ClosedSlot(st, Evs[i].b)
  /\ half' = half \cup {i}
  /\ UNCHANGED done

Second(i) ==
  /\ Released(st, Evs[i], OpenSlots(st) = {} /\ half = {i})
  /\ half' = half \ {i} /\ done' = done \cup {i}
  /\ UNCHANGED st

Linearize ==
  /\ ~ Bad(Traces[tid])
  /\ \/ \E i \in Ready \ half : Whole(i) \/ First(i)
     \/ \E i \in half : Second(i)
  /\ UNCHANGED tid

Accept ==
  /\ Cardinality(done) = Len(Evs)
  /\ ~ Bad(Traces[tid])
  /\ PrintT(<<"ACCEPT", Traces[tid].id>>)
  /\ UNCHANGED vars

Next == Linearize \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
