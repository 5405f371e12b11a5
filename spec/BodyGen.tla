------------------------------- MODULE BodyGen -------------------------------
(***************************************************************************)
(* Scenario generation: BodyCore's operations taken with canonical results *)
(* (as many bytes as possible).  `hist` is the sequence of calls; it is    *)
(* printed for every transition of the state graph (BFS, hist hidden by    *)
(* the VIEW), or at the end of each random walk (-simulate).               *)
(***************************************************************************)
EXTENDS BodyEnv, TLC, Json

CONSTANTS MaxB,      \* members of a family
          Depth,     \* calls per scenario
          Ks,        \* read sizes
          Offs,      \* seek offsets
          Ms,        \* bytes a writer accepts before failing
          Ns,        \* source sizes
          OpSet,     \* operations used
          EnvSet,    \* sources used
          Lifted,    \* no seeks before the beginning
          WalkMode   \* TRUE: print finished random walks only

VARIABLES st, armed, hist, pick
vars == <<st, armed, hist, pick>>

-----------------------------------------------------------------------------
(* Canonical results *)
Data(p, n) == IF n <= 8 THEN [i \in 1..n |-> Src(p + i - 1)] ELSE <<>>
R(p, n, e, se) == [n |-> n, e |-> e, d |-> Data(p, n), loc |-> p, se |-> se,
                   cl |-> 0, ac |-> 0, w |-> n]

(* a random-access source that is about to fail on [p, p + n) *)
Hits(p, n) == /\ armed /\ Rand(st.env) /\ st.env.F >= p
              /\ (st.env.F < p + n \/ (st.env.fw /\ st.env.F = p + n /\ n > 0))

CanonRead(b, k) ==
  LET p == st.pos[b]
      n == Min2(k, Max2(0, Limit(st.env) - p))
  IN CASE st.mode[b] = "closed" -> R(p, 0, "closed", FALSE)
       [] st.term[b] # "no"     -> R(p, 0, st.term[b], FALSE)
       [] Hits(p, n)            -> R(p, st.env.F - p, "src", TRUE)
       [] n < k                 -> R(p, n, IF StreamFails(st.env) THEN "src" ELSE "eof", FALSE)
       [] OTHER                 -> R(p, n, "nil", FALSE)
CanonReadAt(b, k, o) ==
  LET n == Min2(k, Max2(0, End(st.env) - o))
  IN CASE st.mode[b] = "closed" -> R(0, 0, "closed", FALSE)
       [] o < 0                 -> R(0, 0, "other", FALSE)
       [] Hits(o, n)            -> R(o, st.env.F - o, "src", TRUE)
       [] OTHER                 -> R(o, n, IF n < k THEN "eof" ELSE "nil", FALSE)
CanonSeek(b, o, wh) ==
  LET end  == st.known
      base == IF wh = 0 THEN 0 ELSE IF wh = 1 THEN st.pos[b] ELSE end
      e == CASE st.mode[b] = "closed" -> "closed" [] wh > 2 -> "whence"
             [] wh = 0 /\ o < 0 -> "negstart" [] base + o < 0 -> "negcomp" [] OTHER -> "nil"
  IN [off |-> IF e = "nil" THEN Min2(base + o, end) ELSE -1, e |-> e,
      ev |-> IF wh > 2 THEN wh ELSE IF e = "negstart" THEN o ELSE base + o]
CanonWriteTo(b, m) ==
  LET p == st.pos[b]
      rem == Max2(0, End(st.env) - p)
  IN CASE st.mode[b] = "closed" -> R(p, 0, "closed", FALSE)
       [] m >= 0 /\ m < rem     -> R(p, m, "werr", FALSE)
       [] OTHER                 -> R(p, rem, "nil", FALSE)
CanonClose(b) ==
  LET last == OpenSlots(st) = {b}
  IN IF st.mode[b] = "closed" THEN [e |-> "closed", cl |-> 0]
     ELSE [e |-> IF last /\ st.env.closer /\ st.env.cerr THEN "cerr" ELSE "nil",
           cl |-> IF last /\ st.env.closer THEN 1 ELSE 0]

Live == {b \in Slots(st) : st.mode[b] # "absent"}
FirstFree == Cardinality(Live) + 1   \* slots are filled in order

Do(op, s, a) == /\ st' \in s
                /\ armed' = a
                /\ hist' = Append(hist, op)
                /\ pick' = "any"
Disarm(r) == IF r.se /\ st.env.trans THEN FALSE ELSE armed

Read(b, k) == LET r == CanonRead(b, k)
  IN Do([op |-> "read", b |-> b, k |-> k], ReadSucc(st, b, k, r), Disarm(r))
ReadAt(b, k, o) == LET r == CanonReadAt(b, k, o)
  IN Do([op |-> "readat", b |-> b, k |-> k, o |-> o], ReadAtSucc(st, b, k, o, r), Disarm(r))
Seek(b, o, wh) ==
  /\ Lifted => CanonSeek(b, o, wh).e # "negcomp"
  /\ Do([op |-> "seek", b |-> b, o |-> o, wh |-> wh], SeekSucc(st, b, o, wh, CanonSeek(b, o, wh)), armed)
WriteTo(b, m) ==
  Do([op |-> "writeto", b |-> b, m |-> m], WriteToSucc(st, b, m, CanonWriteTo(b, m)), armed)
IoCopy(b) == LET r == CanonRead(b, st.env.N + 1)
  IN Do([op |-> "iocopy", b |-> b],
        IoCopySucc(st, b, [r EXCEPT !.e = IF @ = "eof" THEN "nil" ELSE @]), Disarm(r))
Copy(b, c) ==
  Do([op |-> "copy", b |-> b, c |-> c], CopySucc(st, b, c, [e |-> "nil", caps |-> TRUE]), armed)
Close(b) == Do([op |-> "close", b |-> b], CloseSucc(st, b, CanonClose(b)), armed)
Length(b) == Do([op |-> "len", b |-> b],
                {st}, armed)
Unwrap(b) == Do([op |-> "unwrap", b |-> b], {st}, armed)

Init == /\ \E env \in EnvsNamed(EnvSet, Ns) : st = InitState(env, MaxB)
        /\ armed = TRUE
        /\ hist = <<>>
        /\ pick = "any"

Wanted(op) == op \in OpSet /\ (WalkMode => pick = op)

Act ==
  /\ Len(hist) < Depth
  /\ \E b \in Live :
       \/ Wanted("read") /\ \E k \in Ks : Read(b, k)
       \/ Wanted("readat") /\ CanReadAt(st.env) /\ \E k \in Ks, o \in Offs : ReadAt(b, k, o)
       \/ Wanted("seek") /\ CanSeek(st.env) /\ \E o \in Offs, wh \in 0..2 : Seek(b, o, wh)
       \/ Wanted("seek") /\ CanSeek(st.env) /\ \E wh \in {3, 7} : Seek(b, 0, wh)
       \/ Wanted("writeto") /\ CanWriteTo(st.env) /\ \E m \in Ms : WriteTo(b, m)
       \/ Wanted("iocopy") /\ IoCopy(b)
       \/ Wanted("copy") /\ Live # Slots(st) /\ Copy(b, FirstFree)
       \/ Wanted("close") /\ Close(b)
       \/ Wanted("len") /\ Length(b)
       \/ Wanted("unwrap") /\ Unwrap(b)

Out(h) == PrintT("SCN " \o ToJson([env |-> st.env, nb |-> MaxB, ops |-> h]))

(* Random walks choose the kind of operation first, so that operations with *)
(* many arguments do not crowd out the others, and print the scenario at    *)
(* the end.                                                                 *)
Possible(op) == CASE op \in {"seek"} -> CanSeek(st.env)
                  [] op = "readat"   -> CanReadAt(st.env)
                  [] op = "writeto"  -> CanWriteTo(st.env)
                  [] op = "copy"     -> Live # Slots(st)
                  [] OTHER           -> TRUE
Choose ==
  /\ WalkMode /\ pick = "any" /\ Len(hist) < Depth
  /\ pick' \in {op \in OpSet : Possible(op)}
  /\ UNCHANGED <<st, armed, hist>>
Finish ==
  /\ WalkMode /\ pick = "any" /\ Len(hist) = Depth
  /\ Out(hist)
  /\ pick' = "done"
  /\ UNCHANGED <<st, armed, hist>>

Next == Act \/ Choose \/ Finish

Spec == Init /\ [][Next]_vars

View == <<st, armed>>
(* BFS: one scenario per transition. *)
EmitTransition == Out(hist')
=============================================================================
