---------------------------- MODULE BufferedImpl ----------------------------
(***************************************************************************)
(* Implementation-shaped model of bufferedBody/bufferedCommon (buffered.go) *)
(* at the granularity of one call (a call runs under both locks; the lock  *)
(* level is in ConcImpl).  The shared window `buf` holds the indices   *)
(* of the source bytes retained, `start` the offset of the first one, and  *)
(* `refcnt` how many bodies stand at `start`.                              *)
(*                                                                         *)
(* Refinement: every call's result is checked to be one that BodyCore      *)
(* allows in the abstract state reached so far (`ok`).                     *)
(*                                                                         *)
(* Defect names a deliberate mistake; TLC must find it (non-vacuity).      *)
(***************************************************************************)
EXTENDS BodyEnv, TLC

CONSTANTS MaxB, Ks, Ns, BS, Chunks, Defect

VARIABLES st, ok,
          off, eof,                         \* per body
          start, buf, refcnt, length, err,  \* shared
          src,                              \* how many bytes the source gave
          alloc,                            \* size of the array behind buf
          asked                             \* furthest position any Read asked for
vars == <<st, ok, off, eof, start, buf, refcnt, length, err, src, alloc, asked>>

Envs == {e \in UNION {
           {[E0 EXCEPT !.kind = "stream", !.N = n, !.L = l, !.F = f, !.closer = TRUE,
                       !.chunk = c, !.eofw = w /\ f < 0, !.fw = w /\ f > 0] :
              l \in {-1, n, n + 1} \cup (IF n > 0 THEN {n - 1} ELSE {}),
              f \in {-1} \cup 0..n, c \in Chunks, w \in BOOLEAN} : n \in Ns} : TRUE}
Env == st.env

Init == /\ \E e \in Envs : st = InitState(e, MaxB)
        /\ ok = TRUE
        /\ off = [b \in 1..MaxB |-> 0] /\ eof = [b \in 1..MaxB |-> FALSE]
        /\ start = 0 /\ buf = <<>> /\ refcnt = 1
        /\ length = st.env.L /\ err = "nil"
        /\ src = 0 /\ alloc = 0 /\ asked = 0

OpenB == {b \in 1..MaxB : st.mode[b] = "open"}
Live  == {b \in 1..MaxB : st.mode[b] # "absent"}

(* One Read of the source for at most x bytes, having given s so far. *)
SourceRead(s, x) ==
  LET c  == IF Env.chunk = 0 THEN x ELSE Min2(x, Env.chunk)
      av == Env.N - s
  IN IF Env.F >= s /\ Env.F >= 0 /\ (Env.F - s < Max2(c, 1) \/ (Env.fw /\ c > 0 /\ Env.F = s + c))
     THEN [n |-> Env.F - s, e |-> "src"]
     ELSE IF av = 0 THEN [n |-> 0, e |-> "eof"]
     ELSE IF c >= av THEN [n |-> av, e |-> IF Env.eofw THEN "eof" ELSE "nil"]
     ELSE [n |-> c, e |-> "nil"]

(* The refill loop: until nothing more is wanted or the source reports.     *)
RECURSIVE Fill(_, _, _, _)
Fill(bf, num, endWanted, s) ==
  LET endBuf == start + Len(bf)
  IN IF num = 0 \/ (Defect # "prefetch" /\ endBuf >= endWanted)
     THEN [buf |-> bf, num |-> num, e |-> "nil", s |-> s]
     ELSE LET r  == SourceRead(s, num)
              b2 == bf \o [i \in 1..r.n |-> s + i - 1]
          IN IF r.e # "nil" /\ ~ (Defect = "fullBlock" /\ r.e = "src" /\ num = r.n) THEN [buf |-> b2, num |-> num - r.n, e |-> r.e, s |-> s + r.n]
             ELSE Fill(b2, num - r.n, endWanted, s + r.n)

(* Trim the window after the offsets became o, the open bodies being B. *)
Trim(o, B, bf) ==
  LET new == CHOOSE p \in {o[b] : b \in B} : \A b \in B : p <= o[b]
      cut == IF Defect = "trimOne" THEN Min2(new - start + 1, Len(bf)) ELSE new - start
  IN [start |-> new, buf |-> SubSeq(bf, cut + 1, Len(bf)),
      refcnt |-> Cardinality({b \in B : o[b] = new})]

(* Trimming keeps the array behind the window; it is exchanged for a smaller *)
(* one when more than half of it, and more than a block, is unused.         *)
Compacted(a, used) == IF Defect # "noCompact" /\ a - used > used + BS THEN used ELSE a

Abstract(ev) == LET s == Succ(st, ev)
                IN /\ ok' = (s # {})
                   /\ st' = IF s # {} THEN CHOOSE x \in s : TRUE ELSE st

Ev(op, b) == [op |-> op, b |-> b, ac |-> 0, cl |-> 0, se |-> FALSE, e |-> "nil", n |-> 0,
              loc |-> -1, d |-> <<>>]

RoundUp(x) == ((x + BS - 1) \div BS) * BS

Read(b, k) ==
  IF st.mode[b] = "closed"
  THEN /\ Abstract([Ev("read", b) EXCEPT !.e = "closed"] @@ [k |-> k])
       /\ UNCHANGED <<off, eof, start, buf, refcnt, length, err, src, alloc, asked>>
  ELSE IF eof[b]
  THEN /\ Abstract([Ev("read", b) EXCEPT !.e = err] @@ [k |-> k])
       /\ UNCHANGED <<off, eof, start, buf, refcnt, length, err, src, alloc, asked>>
  ELSE
    LET endWanted == off[b] + k
        endBuf0   == start + Len(buf)
        refill    == err = "nil" /\ endWanted > endBuf0
        num0      == RoundUp(endWanted - endBuf0)
        remain    == length - endBuf0
        capped    == length >= 0 /\ num0 >= remain
        num       == IF capped THEN remain ELSE num0
        f         == IF refill THEN Fill(buf, num, endWanted, src)
                               ELSE [buf |-> buf, num |-> 1, e |-> "nil", s |-> src]
        endBuf    == start + Len(f.buf)
        err1      == IF ~ refill THEN err
                     ELSE IF f.e # "nil" THEN f.e
                     ELSE IF capped /\ (f.num = 0 \/ Defect = "eofEarly") THEN "eof" ELSE "nil"
        len1      == IF refill /\ err1 # "nil" THEN endBuf ELSE length
        short     == endWanted > endBuf
        newOff    == IF short THEN endBuf ELSE endWanted
        n         == newOff - off[b]
        data      == [i \in 1..n |-> Src(f.buf[off[b] - start + i])]
        off1      == [off EXCEPT ![b] = newOff]
        t         == IF off[b] = start /\ newOff # start /\ refcnt = 1
                     THEN Trim(off1, IF Defect = "trimAlone" THEN {b} ELSE OpenB, f.buf)
                     ELSE [start |-> start, buf |-> f.buf,
                           refcnt |-> IF off[b] = start /\ newOff # start THEN refcnt - 1 ELSE refcnt]
    IN /\ Abstract([Ev("read", b) EXCEPT !.e = IF short THEN err1 ELSE "nil", !.n = n, !.d = data]
                   @@ [k |-> k])
       /\ off' = off1
       /\ eof' = [eof EXCEPT ![b] = short]
       /\ start' = t.start /\ buf' = t.buf /\ refcnt' = t.refcnt
       /\ length' = len1 /\ err' = err1 /\ src' = f.s
       /\ alloc' = Compacted(IF refill THEN Len(buf) + num ELSE alloc, Len(t.buf))
       /\ asked' = Max2(asked, endWanted)

BytesRemaining(b) ==
  LET v == IF st.mode[b] = "closed" \/ eof[b] THEN 0
           ELSE IF length < 0 THEN -1 ELSE Max2(0, length - off[b])
  IN /\ Abstract(Ev("len", b) @@ [v |-> v])
     /\ UNCHANGED <<off, eof, start, buf, refcnt, length, err, src, alloc, asked>>

Copy(b, c) ==
  /\ st.mode[c] = "absent"
  /\ Abstract(Ev("copy", b) @@ [c |-> c, caps |-> TRUE])
  /\ off' = [off EXCEPT ![c] = off[b]]
  /\ eof' = [eof EXCEPT ![c] = IF Defect = "copyEof" THEN FALSE ELSE eof[b]]
  /\ refcnt' = IF st.mode[b] = "open" /\ off[b] = start /\ Defect # "noRef" THEN refcnt + 1 ELSE refcnt
  /\ UNCHANGED <<start, buf, length, err, src, alloc, asked>>

Close(b) ==
  IF st.mode[b] = "closed"
  THEN /\ Abstract([Ev("close", b) EXCEPT !.e = "closed"])
       /\ UNCHANGED <<off, eof, start, buf, refcnt, length, err, src, alloc, asked>>
  ELSE
    LET rest == OpenB \ {b}
        last == rest = {}
        t    == IF ~ last /\ off[b] = start /\ refcnt = 1 /\ Defect # "noTrimOnClose"
                THEN Trim(off, rest, buf)
                ELSE [start |-> start, buf |-> buf,
                      refcnt |-> IF off[b] = start THEN refcnt - 1 ELSE refcnt]
    IN /\ Abstract([Ev("close", b) EXCEPT !.cl = IF last THEN 1 ELSE 0])
       /\ off' = [off EXCEPT ![b] = 0] /\ eof' = [eof EXCEPT ![b] = FALSE]
       /\ start'  = IF last THEN 0 ELSE t.start
       /\ buf'    = IF last THEN <<>> ELSE t.buf
       /\ refcnt' = IF last THEN 0 ELSE t.refcnt
       /\ length' = IF last THEN 0 ELSE length
       /\ err'    = IF last THEN "nil" ELSE err
       /\ alloc'  = IF last THEN 0 ELSE Compacted(alloc, Len(t.buf))
       /\ UNCHANGED <<src, asked>>

Next == \/ \E b \in Live, k \in Ks : Read(b, k)
        \/ \E b \in Live : BytesRemaining(b) \/ Close(b)
        \/ \E b, c \in 1..MaxB : b \in Live /\ Copy(b, c)
Spec == Init /\ [][ok /\ Next]_vars

-----------------------------------------------------------------------------
Refines == ok
Window == /\ \A i \in 1..Len(buf) : buf[i] = start + i - 1
          /\ OpenB # {} => start + Len(buf) = src
          /\ \A b \in OpenB : off[b] >= start /\ off[b] <= start + Len(buf)
RefcntExact == OpenB # {} => refcnt = Cardinality({b \in OpenB : off[b] = start}) /\ refcnt >= 1
(* B11: beyond the span of the open bodies less than a block is retained. *)
Span == LET offs == {off[b] : b \in OpenB}
        IN IF offs = {} THEN 0
           ELSE (CHOOSE x \in offs : \A y \in offs : x >= y) - (CHOOSE x \in offs : \A y \in offs : x <= y)
Furthest == Max2(0, CHOOSE x \in {off[b] : b \in 1..MaxB} : \A b \in 1..MaxB : x >= off[b])
Retention == Len(buf) <= Span + (src - Furthest) /\ (OpenB = {} => buf = <<>>)
Compact == alloc <= 2 * Len(buf) + BS
(* B12: the source is never made to give more than asked for plus what one   *)
(* of its own reads carries beyond it.                                       *)
Prefetch == src < asked + BS
NoWaiting == Env.chunk > 0 => src < asked + Env.chunk
=============================================================================
