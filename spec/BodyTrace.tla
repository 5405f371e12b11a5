------------------------------ MODULE BodyTrace ------------------------------
(***************************************************************************)
(* Validates traces recorded from the real package against BodyCore.       *)
(*                                                                         *)
(* One behaviour per recorded trace, one step per recorded call.  A call   *)
(* that no step of the specification explains is reported with the         *)
(* properties whose clause it breaks, and ends that trace (the state of    *)
(* the real object is unknown from there on).                              *)
(*                                                                         *)
(* `dirty[b]` names the properties at stake in the position of body b: it  *)
(* is reset when a Read delivered verified bytes, and collects what        *)
(* happened to b, or to its copies, since then.                            *)
(***************************************************************************)
EXTENDS BodyCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, dirty, seen
vars == <<tid, l, st, dirty, seen>>

T == Traces[tid]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st = InitState(Traces[tid].env, Traces[tid].nb)
  /\ dirty = [b \in 1..Traces[tid].nb |-> {}]
  /\ seen = {}

(* Which properties does a call that cannot be explained break? *)
ReadBlame(ev) ==
  LET d == dirty[ev.b]
  IN (IF d \subseteq {"B02"} THEN {"B01"} ELSE {}) \cup d
     \cup (IF st.env.F >= 0 \/ ev.se THEN {"B09"} ELSE {})
     \cup (IF ev.e = "closed" THEN {"B05"} ELSE {})

Blame(ev) ==
  IF ~ SourceUndisturbed(ev) THEN {"B04"} \cup (IF st.mode[ev.b] = "closed" THEN {"B05"} ELSE {})
  ELSE IF st.mode[ev.b] = "closed" /\ ev.op # "new"
       THEN {"B05"} \cup (CASE ev.op = "close" -> {"B04"}
                            [] ev.op = "unwrap" -> {"B04"}
                            [] OTHER -> {})
  ELSE CASE ev.op = "read"    -> ReadBlame(ev)
         [] ev.op = "len"     -> {"B03"} \cup dirty[ev.b]
         [] ev.op = "seek"    -> {"B06"}
         [] ev.op = "readat"  -> {"B07"} \cup (IF st.env.F >= 0 THEN {"B09"} ELSE {})
         [] ev.op = "writeto" -> {"B08"} \cup (dirty[ev.b] \ {"B02"})
         [] ev.op = "iocopy"  -> ReadBlame(ev) \cup (IF CanWriteTo(st.env) THEN {"B08"} ELSE {})
         [] ev.op = "copy"    -> {"B02"}
         [] ev.op = "close"   -> {"B04"}
         [] ev.op = "unwrap"  -> {"B04"}
         [] OTHER             -> {}

(* An operation that the documentation promises but the body lacks. *)
Missing(ev) == ev.e = "unsupported"

Own(ev) == CASE ev.op = "seek" -> {"B06"} [] ev.op = "readat" -> {"B07"}
             [] ev.op = "writeto" -> {"B08"} [] ev.op = "copy" -> {"B02"} [] OTHER -> {}
Foreign(ev) == CASE ev.op \in {"len", "unwrap"} -> {}
                 [] ev.op = "readat" -> {"B02", "B07"}
                 [] OTHER -> {"B02"}

DirtyAfter(ev) ==
  [b \in DOMAIN dirty |->
     CASE b = ev.b /\ ev.op \in {"read", "iocopy"} /\ ev.n > 0 -> {}
       [] b = ev.b -> dirty[b] \cup Own(ev)
       [] ev.op = "copy" /\ b = ev.c -> {"B02"} \cup dirty[ev.b]
       [] OTHER -> dirty[b] \cup Foreign(ev)]

Note(ev) == ev.op

Step ==
  /\ l <= Len(T.ev)
  /\ LET ev == T.ev[l]
         succ == IF Missing(ev) THEN {} ELSE Succ(st, ev)
     IN IF succ # {}
        THEN /\ st' \in succ
             /\ dirty' = DirtyAfter(ev)
             /\ seen' = seen \cup {Note(ev)}
             /\ l' = l + 1
        ELSE /\ PrintT(<<"VIOL", T.id, l, IF Missing(ev) THEN {"B14"} ELSE Blame(ev)>>)
             /\ l' = Len(T.ev) + 2
             /\ UNCHANGED <<st, dirty, seen>>
  /\ UNCHANGED tid

Finish ==
  /\ l = Len(T.ev) + 1
  /\ PrintT(<<"ACCEPT", T.id>>)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, st, dirty, seen>>

TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Invariants of the specification, evaluated in every state of every trace *)
TypeOK ==
  /\ \A b \in Slots(st) : st.mode[b] \in {"absent", "open", "closed"}
  /\ \A b \in Slots(st) : st.pos[b] >= 0 /\ st.term[b] \in {"no", "eof", "src"}
=============================================================================
