------------------------------ MODULE WriterGen ------------------------------
(***************************************************************************)
(* Scenarios for the wrapping Writer: one per transition of the state      *)
(* graph (status sent, failure seen, budget of the wrapped writer), and    *)
(* random walks.                                                           *)
(***************************************************************************)
EXTENDS WriterCore, TLC, Json

CONSTANTS Depth, WalkMode, AllCaps

VARIABLES env, status, saw, left, hist, done
vars == <<env, status, saw, left, hist, done>>

CapsRec(b) == [fl |-> b[1], cn |-> b[2], hj |-> b[3], rf |-> b[4], pu |-> b[5]]
Full == CapsRec(<<TRUE, TRUE, TRUE, TRUE, TRUE>>)
CapsSet == IF AllCaps THEN [fl : BOOLEAN, cn : BOOLEAN, hj : BOOLEAN, rf : BOOLEAN, pu : BOOLEAN]
           ELSE {Full, [Full EXCEPT !.pu = FALSE], CapsRec(<<TRUE, FALSE, FALSE, FALSE, FALSE>>),
                 CapsRec(<<FALSE, FALSE, FALSE, FALSE, TRUE>>)}
Maxes == {-1, 0, 1, 3, 5}
Ops == {[op |-> o, v |-> v] : o \in {"status", "maybe"}, v \in {-1, 0, 99, 100, 199, 200, 204, 205, 206, 301, 304, 404, 500, 999, 1000}}
       \cup {[op |-> "write", k |-> k] : k \in {0, 1, 2, 3}}
       \cup {[op |-> o, k |-> k, f |-> f] : o \in {"readfrom", "copy"}, k \in {0, 1, 3}, f \in {-1}}
       \cup {[op |-> o, k |-> 3, f |-> f] : o \in {"readfrom", "copy"}, f \in {0, 2}}
       \cup {[op |-> o] : o \in {"flush", "hijack", "notify", "unwrap"}}
       \cup {[op |-> o, head |-> h] : o \in {"rewrap", "foreign"}, h \in BOOLEAN}
       \cup {[op |-> "header", v |-> v] : v \in {1, 2}}
       \cup {[op |-> "push", want |-> w] : w \in {"nil", "push", "notsup", "wrapped"}}

Kinds == {o.op : o \in Ops}
Kind(k) == {o \in Ops : o.op = k}

Init == /\ env \in [caps : CapsSet, head : BOOLEAN, max : Maxes, kind : {"plain", "request"}]
        /\ env.kind = "request" => env.max = -1
        /\ status = 0 /\ saw = FALSE /\ left = env.max /\ hist = <<>> /\ done = FALSE
Data(op) == op.op \in {"write", "readfrom", "copy"}
Size(op) == IF op.op = "write" \/ op.f < 0 THEN op.k ELSE op.f
Do(op) ==
  LET s1 == IF op.op \in {"status", "maybe"} THEN (IF Valid(op.v) /\ status = 0 THEN op.v ELSE status)
            ELSE IF Data(op) \/ (op.op = "flush" /\ env.caps.fl) THEN (IF status = 0 THEN 200 ELSE status)
            ELSE status
      n == IF Data(op) /\ ~ NoBody(s1, env.head) THEN Size(op) ELSE 0
  IN /\ status' = s1
     /\ left' = IF left < 0 THEN left ELSE Max2(0, left - n)
     /\ saw' = (saw \/ (left >= 0 /\ n > left) \/ (op.op = "status" /\ Valid(op.v) /\ status # 0))
     /\ hist' = Append(hist, op)
     /\ UNCHANGED env
Out(h) == PrintT("SCN " \o ToJson([env |-> env, ops |-> h]))
Act == /\ ~ done /\ Len(hist) < Depth
       /\ IF WalkMode THEN \E op \in {RandomElement(Kind(RandomElement(Kinds)))}, r \in {RandomElement(1..8)}, v \in {RandomElement(100..999)}, w \in {RandomElement({201, 202, 203, 205, 206, 302, 303, 307, 308, 401, 409, 410, 429, 503})} :
                             Do(IF op.op \notin {"status", "maybe"} \/ r <= 3 THEN op ELSE [op EXCEPT !.v = IF r = 4 THEN v ELSE w])
                        ELSE \E op \in Ops : Do(op)
       /\ UNCHANGED done
Finish == /\ WalkMode /\ ~ done /\ Len(hist) = Depth
          /\ Out(hist) /\ done' = TRUE /\ UNCHANGED <<env, status, saw, left, hist>>
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
View == <<env, status, saw, left>>
EmitTransition == Out(hist')
=============================================================================
