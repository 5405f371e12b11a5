------------------------------- MODULE BodyMem -------------------------------
(***************************************************************************)
(* Retention of a streaming body (B11).                                    *)
(*                                                                         *)
(* State: where every open member of a family stands, and the furthest     *)
(* position any of them has reached.  Memory that must be kept: from the   *)
(* slowest open member to there.  A body over bytes keeps them all until  *)
(* it is closed; its copies may share them, but need not.                  *)
(*                                                                         *)
(* The same operators generate scenarios (Mode = "gen": random walks over  *)
(* reads of many blocks, copies and closes) and validate recordings        *)
(* (Mode = "trace"): after every call the live heap, in KiB above what it  *)
(* was before the body was made, must not exceed the allowance.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, MaxB, Depth, Units, Reads

Traces == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE_FILE) ELSE <<>>

VARIABLES tid, l, pos, open, far, hist, fin
vars == <<tid, l, pos, open, far, hist, fin>>

Max2(a, b) == IF a > b THEN a ELSE b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* what may have to be kept *)
Whole == Mode = "trace" /\ Traces[tid].scn.kind # "stream"
Needed(p, o, f) == IF o = {} THEN 0
                   ELSE IF Whole THEN 1024 * Traces[tid].scn.units * Cardinality(o)
                   ELSE f - Least({p[b] : b \in o})

(* A growing buffer may take twice what it holds, plus a block; the        *)
(* recording itself needs a little.                                        *)
SlackKiB == 1024
Allowed(p, o, f) == 2 * Needed(p, o, f) + SlackKiB

Init == /\ tid \in (IF Mode = "trace" THEN 1..Len(Traces) ELSE {0})
        /\ l = 1
        /\ pos = [b \in 1..MaxB |-> 0]
        /\ open = {1} /\ far = 0 /\ hist = <<>> /\ fin = FALSE

(* one call, n KiB being what a read delivered *)
Effect(ev, n) ==
  /\ CASE ev.op = "read" -> /\ pos' = [pos EXCEPT ![ev.b] = @ + n]
                            /\ far' = Max2(far, pos[ev.b] + n)
                            /\ UNCHANGED open
       [] ev.op = "copy" -> /\ pos' = [pos EXCEPT ![ev.c] = pos[ev.b]]
                            /\ open' = open \cup {ev.c}
                            /\ UNCHANGED far
       [] ev.op = "close" -> /\ open' = open \ {ev.b}
                             /\ UNCHANGED <<pos, far>>

Step ==
  /\ Mode = "trace" /\ ~ fin /\ l <= Len(Traces[tid].ev)
  /\ LET ev == Traces[tid].ev[l]
     IN IF ev.e \notin {"nil", "eof"}
        THEN PrintT(<<"VIOL", Traces[tid].id, l, {"B01"}>>) /\ fin' = TRUE /\ UNCHANGED <<pos, open, far>>
        ELSE /\ Effect(ev, ev.kib)
             /\ IF ev.heap <= Allowed(pos', open', far') THEN fin' = FALSE
                ELSE PrintT(<<"VIOL", Traces[tid].id, l, {"B11"}>>) /\ fin' = TRUE
  /\ l' = l + 1
  /\ UNCHANGED <<tid, hist>>
Accept == /\ Mode = "trace" /\ ~ fin /\ l = Len(Traces[tid].ev) + 1
          /\ PrintT(<<"ACCEPT", Traces[tid].id>>) /\ fin' = TRUE
          /\ UNCHANGED <<tid, l, pos, open, far, hist>>

Made == {1} \cup {hist[i].c : i \in {j \in 1..Len(hist) : hist[j].op = "copy"}}
Free == (1..MaxB) \ Made
Gen ==
  /\ Mode = "gen" /\ Len(hist) < Depth
  /\ \/ \E b \in open, r \in Reads, how \in {"whole", "small", "odd"} :
          /\ pos[b] + r <= Units
          /\ Effect([op |-> "read", b |-> b], r)
          /\ hist' = Append(hist, [op |-> "read", b |-> b, k |-> r, how |-> how])
     \/ \E b \in open : /\ Free # {}
                        /\ Effect([op |-> "copy", b |-> b, c |-> Least(Free)], 0)
                        /\ hist' = Append(hist, [op |-> "copy", b |-> b, c |-> Least(Free)])
     \/ \E b \in open : /\ Effect([op |-> "close", b |-> b], 0)
                        /\ hist' = Append(hist, [op |-> "close", b |-> b])
  /\ UNCHANGED <<tid, l, fin>>
Out == /\ Mode = "gen" /\ ~ fin /\ (Len(hist) = Depth \/ open = {})
       /\ PrintT("SCN " \o ToJson([ops |-> hist, nb |-> MaxB]))
       /\ fin' = TRUE
       /\ UNCHANGED <<tid, l, pos, open, far, hist>>

Next == Step \/ Accept \/ (~ fin /\ Gen) \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
