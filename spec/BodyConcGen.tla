---------------------------- MODULE BodyConcGen ----------------------------
(***************************************************************************)
(* Concurrent scenarios by random walks: a sequential prelude, then the    *)
(* calls of each thread.  Threads share bodies 1 and 2 (2 exists if the    *)
(* prelude copies); thread t may make its own copy in slot 2 + t.          *)
(***************************************************************************)
EXTENDS BodyEnv, TLC, Json

CONSTANTS NT,      \* threads
          PerT,    \* calls per thread
          Ns, Ks, Offs,
          OpSet      \* operations used

VARIABLES env, pre, th, own, pick
vars == <<env, pre, th, own, pick>>

Envs == Mem(Ns) \cup StreamsUnknown(Ns, {0, 1}, {FALSE}) \cup StreamsKnown(Ns, {0, 1}, {FALSE}, {-1, 0, 1})
        \cup Seeks(Ns, {0, 1}, {FALSE}, {0, 1}) \cup Ats(Ns, {FALSE}, {0, 1})
        \cup {e \in Failing(Ns, {0}) : e.F = 1}

C12 == [op |-> "copy", b |-> 1, c |-> 2]
Rd(b, k) == [op |-> "read", b |-> b, k |-> k]
Preludes == {<<>>, <<C12>>, <<Rd(1, 1), C12>>, <<C12, Rd(1, 2)>>, <<C12, Rd(2, 1)>>,
             <<Rd(1, 9), C12>>, <<C12, Rd(1, 9)>>, <<C12, [op |-> "close", b |-> 1]>>}

Init == /\ env \in Envs
        /\ pre = <<[op |-> "none"]>>
        /\ th = [t \in 1..NT |-> <<>>]
        /\ own = {}
        /\ pick = "pre"

Shared == IF \E i \in 1..Len(pre) : pre[i].op = "copy" THEN {1, 2} ELSE {1}
Ops == {"read", "read2", "len", "copy", "close", "unwrap"}
       \cup (IF CanSeek(env) THEN {"seek", "readat"} ELSE {}) \cup (IF CanWriteTo(env) THEN {"writeto"} ELSE {})
Turn == CHOOSE t \in 1..NT : Len(th[t]) < PerT /\ \A u \in 1..(t - 1) : Len(th[u]) >= PerT

Pre == pick = "pre" /\ pre' \in Preludes /\ pick' = "any" /\ UNCHANGED <<env, th, own>>
More == \E t \in 1..NT : Len(th[t]) < PerT
Choose == /\ pick = "any" /\ More
          /\ pick' \in {op \in Ops : /\ (op # "copy" \/ Turn \notin own)
                            /\ (op \in OpSet \/ (op = "read2" /\ "read" \in OpSet))}
          /\ UNCHANGED <<env, pre, th, own>>
Add(op) == /\ th' = [th EXCEPT ![Turn] = Append(@, op)]
           /\ pick' = "any"
           /\ UNCHANGED <<env, pre>>
Act ==
  /\ pick \notin {"any", "pre", "done"}
  /\ \E b \in Shared \cup (IF Turn \in own THEN {2 + Turn} ELSE {}) :
       \/ pick \in {"read", "read2"} /\ \E k \in Ks : Add(Rd(b, k)) /\ UNCHANGED own
       \/ pick \in {"len", "close", "unwrap"} /\ Add([op |-> pick, b |-> b]) /\ UNCHANGED own
       \/ pick = "seek" /\ \E o \in Offs, wh \in 0..2 :
            Add([op |-> "seek", b |-> b, o |-> o, wh |-> wh]) /\ UNCHANGED own
       \/ pick = "readat" /\ \E o \in Offs, k \in Ks :
            Add([op |-> "readat", b |-> b, k |-> k, o |-> o]) /\ UNCHANGED own
       \/ pick = "writeto" /\ \E m \in {-1, 1} : Add([op |-> "writeto", b |-> b, m |-> m]) /\ UNCHANGED own
       \/ pick = "copy" /\ Add([op |-> "copy", b |-> b, c |-> 2 + Turn]) /\ own' = own \cup {Turn}
Finish == /\ pick = "any" /\ ~ More
          /\ PrintT("SCN " \o ToJson([env |-> env, nb |-> 2 + NT, pre |-> pre, threads |-> th]))
          /\ pick' = "done"
          /\ UNCHANGED <<env, pre, th, own>>
Next == Pre \/ Choose \/ Act \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
