------------------------------ MODULE ConcImpl ------------------------------
(***************************************************************************)
(* The locking protocol of bodies that share a forward-only source: every  *)
(* operation takes its body's lock, then (if it touches what is shared)    *)
(* the common lock, and gives them back in reverse order.  The model shows *)
(* that this never deadlocks, and that every operation takes effect at one *)
(* instant: its result is one that BodyCore allows at the moment marked    *)
(* Effect (so the history is linearizable with those moments as order).    *)
(*                                                                         *)
(* A read delivers one byte; the source yields byte positions 0, 1, ...,   *)
(* N - 1 and then end-of-file.                                             *)
(*                                                                         *)
(* Defect: "none", or a protocol mistake that the model must refute:       *)
(*   "unlockFetch"  the common lock is released around the source call     *)
(*   "lateRef"      Copy attaches the copy after releasing the body's lock *)
(*   "order"        Copy takes the two locks in the other order            *)
(*   "keepLock"     a Read at end-of-file forgets to release its lock      *)
(***************************************************************************)
EXTENDS BodyCore, TLC

CONSTANTS Threads, PerT, N, Defect

VARIABLES st,                          \* BodyCore's state
          off, open, refs, base, buf, sp, eof, closes,
          bmu, cmu,                    \* holders, 0 = free
          pc, op, tmp, left, bad
vars == <<st, off, open, refs, base, buf, sp, eof, closes, bmu, cmu, pc, op, tmp, left, bad>>
impl == <<off, open, refs, base, buf, sp, eof, closes>>

NSlots == 1 + Cardinality(Threads)
Env0 == [kind |-> "stream", N |-> N, L |-> -1, F |-> -1, closer |-> TRUE, cerr |-> FALSE]

Init == /\ st = InitState(Env0, NSlots)
        /\ off = [b \in 1..NSlots |-> 0]
        /\ open = [b \in 1..NSlots |-> b = 1]
        /\ refs = {1} /\ base = 0 /\ buf = <<>> /\ sp = 0 /\ eof = FALSE /\ closes = 0
        /\ bmu = [b \in 1..NSlots |-> 0] /\ cmu = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ op = [t \in Threads |-> [k |-> "none", b |-> 1]]
        /\ tmp = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> PerT]
        /\ bad = FALSE

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Exists(b) == st.mode[b] # "absent"

Start(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ \E k \in {"read", "copy", "close"}, b \in {b \in 1..NSlots : Exists(b)} :
       /\ k = "copy" => ~ Exists(1 + t)
       /\ op' = [op EXCEPT ![t] = [k |-> k, b |-> b]]
       /\ Goto(t, IF Defect = "order" /\ k = "copy" THEN "wantCommonFirst" ELSE "wantBody")
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<st, impl, bmu, cmu, tmp, bad>>

WantCommonFirst(t) ==
  /\ pc[t] = "wantCommonFirst" /\ cmu = 0 /\ cmu' = t
  /\ Goto(t, "wantBody")
  /\ UNCHANGED <<st, impl, bmu, op, tmp, left, bad>>

B(t) == op[t].b
WantBody(t) ==
  /\ pc[t] = "wantBody" /\ bmu[B(t)] = 0
  /\ bmu' = [bmu EXCEPT ![B(t)] = t]
  /\ Goto(t, "inBody")
  /\ UNCHANGED <<st, impl, cmu, op, tmp, left, bad>>

(* a result r at the instant of effect *)
Effect(r) == LET s == CallSucc(st, r) IN IF s = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in s
Nothing == [n |-> 0, d |-> <<>>, loc |-> -1, se |-> FALSE, cl |-> 0, ac |-> 0, e |-> "nil", caps |-> TRUE]
Res(t, e) == [Nothing EXCEPT !.e = e] @@ [op |-> op[t].k, b |-> B(t), k |-> 1, c |-> 1 + t]

InBody(t) ==
  /\ pc[t] = "inBody"
  /\ IF ~ open[B(t)]
     THEN /\ Effect(IF op[t].k = "copy" THEN Res(t, "nil") ELSE Res(t, "closed"))
          /\ Goto(t, "relAll")
          /\ UNCHANGED <<impl, bmu, cmu, op, tmp, left>>
     ELSE /\ IF op[t].k = "copy" /\ Defect = "lateRef"
             THEN /\ bmu' = [bmu EXCEPT ![B(t)] = 0]
                  /\ tmp' = [tmp EXCEPT ![t] = off[B(t)]]
             ELSE /\ UNCHANGED bmu
                  /\ tmp' = [tmp EXCEPT ![t] = off[B(t)]]
          /\ Goto(t, "wantCommon")
          /\ UNCHANGED <<st, impl, cmu, op, left, bad>>

WantCommon(t) ==
  /\ pc[t] = "wantCommon" /\ cmu \in {0} \cup (IF Defect = "order" THEN {t} ELSE {})
  /\ cmu' = t
  /\ Goto(t, "inCommon")
  /\ UNCHANGED <<st, impl, bmu, op, tmp, left, bad>>

Have == base + Len(buf)
InCommon(t) ==
  /\ pc[t] = "inCommon"
  /\ CASE op[t].k = "read" ->
            IF off[B(t)] >= Have /\ ~ eof
            THEN /\ tmp' = [tmp EXCEPT ![t] = sp]
                 /\ sp' = Min2(sp + 1, N)
                 /\ cmu' = IF Defect = "unlockFetch" THEN 0 ELSE cmu
                 /\ Goto(t, "fetched")
                 /\ UNCHANGED <<st, off, open, refs, base, buf, eof, closes, bmu, op, left, bad>>
            ELSE /\ Goto(t, "deliver")
                 /\ UNCHANGED <<st, impl, bmu, cmu, op, tmp, left, bad>>
       [] op[t].k = "copy" ->
            /\ refs' = refs \cup {1 + t}
            /\ off' = [off EXCEPT ![1 + t] = tmp[t]]
            /\ open' = [open EXCEPT ![1 + t] = TRUE]
            /\ IF tmp[t] < base \/ refs = {} THEN bad' = TRUE /\ st' = st ELSE Effect(Res(t, "nil"))
            /\ Goto(t, "relAll")
            /\ UNCHANGED <<base, buf, sp, eof, closes, bmu, cmu, op, tmp, left>>
       [] op[t].k = "close" ->
            LET rest == refs \ {B(t)}
            IN /\ refs' = rest
               /\ open' = [open EXCEPT ![B(t)] = FALSE]
               /\ closes' = IF rest = {} THEN closes + 1 ELSE closes
               /\ Effect([Res(t, "nil") EXCEPT !.cl = IF rest = {} THEN 1 ELSE 0])
               /\ Goto(t, "relAll")
               /\ UNCHANGED <<off, base, buf, sp, eof, bmu, cmu, op, tmp, left>>

Fetched(t) ==
  /\ pc[t] = "fetched" /\ cmu \in {0, t}
  /\ cmu' = t
  /\ IF tmp[t] < N THEN buf' = Append(buf, tmp[t]) /\ UNCHANGED eof ELSE eof' = TRUE /\ UNCHANGED buf
  /\ Goto(t, "deliver")
  /\ UNCHANGED <<st, off, open, refs, base, sp, closes, bmu, op, tmp, left, bad>>

Deliver(t) ==
  /\ pc[t] = "deliver"
  /\ LET b == B(t)
         o == off[b]
     IN IF o < Have
        THEN /\ off' = [off EXCEPT ![b] = o + 1]
             /\ LET lo == CHOOSE x \in {off'[c] : c \in refs} : \A y \in {off'[c] : c \in refs} : x <= y
                IN /\ base' = lo
                   /\ buf' = SubSeq(buf, lo - base + 1, Len(buf))
             /\ Effect([Res(t, "nil") EXCEPT !.n = 1, !.d = <<Src(buf[o - base + 1])>>])
             /\ Goto(t, "relAll")
        ELSE /\ Effect(Res(t, "eof"))
             /\ Goto(t, IF Defect = "keepLock" THEN "relBody" ELSE "relAll")
             /\ UNCHANGED <<off, base, buf>>
  /\ UNCHANGED <<open, refs, sp, eof, closes, bmu, cmu, op, tmp, left>>

RelAll(t) ==
  /\ pc[t] = "relAll"
  /\ cmu' = IF cmu = t THEN 0 ELSE cmu
  /\ Goto(t, "relBody")
  /\ UNCHANGED <<st, impl, bmu, op, tmp, left, bad>>
RelBody(t) ==
  /\ pc[t] = "relBody"
  /\ bmu' = [bmu EXCEPT ![B(t)] = IF @ = t THEN 0 ELSE @]
  /\ Goto(t, "idle")
  /\ UNCHANGED <<st, impl, cmu, op, tmp, left, bad>>

AllDone == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == \/ \E t \in Threads : Start(t) \/ WantCommonFirst(t) \/ WantBody(t) \/ InBody(t) \/ WantCommon(t)
                              \/ InCommon(t) \/ Fetched(t) \/ Deliver(t) \/ RelAll(t) \/ RelBody(t)
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Linearizable == ~ bad
ClosedOnce == closes <= 1 /\ (closes = 1 <=> refs = {})
MutualExclusion == \A t, u \in Threads :
   (t # u /\ pc[t] \in {"inCommon", "deliver"}) => pc[u] \notin {"inCommon", "deliver"}
Finishes == <>AllDone
=============================================================================
