------------------------------ MODULE RandImpl ------------------------------
(***************************************************************************)
(* Implementation-shaped model of readerAtBody and seekerBody              *)
(* (readerat.go, seeker.go): bodies with their own offset and sticky error *)
(* over a source with one cursor and a length shared by all copies, which  *)
(* shrinks when a Read finds the end early.  Granularity: one call.        *)
(* Refinement into BodyCore is checked at every call (`ok`).               *)
(***************************************************************************)
EXTENDS BodyEnv, TLC

CONSTANTS MaxB, Ks, Offs, Ns, Chunks, Kinds, Defect

VARIABLES st, ok,
          off, serr,        \* per body: offset, sticky error
          length, cursor,   \* shared
          armed             \* the source's failure is still to come
vars == <<st, ok, off, serr, length, cursor, armed>>

Env == st.env
Envs == {e \in UNION {
           {[E0 EXCEPT !.kind = kd, !.N = n, !.L = l, !.F = f, !.closer = TRUE, !.chunk = c,
                       !.eofw = w, !.trans = t, !.fw = w /\ f > 0] :
              kd \in Kinds, l \in {n, n + 1} \cup (IF n > 0 THEN {n - 1} ELSE {}),
              f \in {-1} \cup 0..(n - 1), c \in Chunks, w \in BOOLEAN, t \in BOOLEAN} : n \in Ns} :
           /\ e.kind = "at" => e.chunk = 0
           /\ e.F < 0 => ~ e.trans}

Init == /\ \E e \in Envs : st = InitState(e, MaxB)
        /\ ok = TRUE
        /\ off = [b \in 1..MaxB |-> 0] /\ serr = [b \in 1..MaxB |-> "nil"]
        /\ length = st.env.L /\ cursor = 0 /\ armed = TRUE

OpenB == {b \in 1..MaxB : st.mode[b] = "open"}
Live  == {b \in 1..MaxB : st.mode[b] # "absent"}

(* io.Reader.Read of the source at position c, x >= 0 bytes wanted *)
SrcRead(c, x, arm) ==
  LET n  == IF Env.chunk > 0 THEN Min2(x, Env.chunk) ELSE x
      av == Max2(0, Env.N - c)
  IN IF arm /\ Env.F >= c /\ (Env.F < c + n \/ (Env.fw /\ n > 0 /\ Env.F = c + n)) THEN [n |-> Env.F - c, e |-> "src"]
     ELSE IF av = 0 THEN [n |-> 0, e |-> IF x = 0 THEN "nil" ELSE "eof"]
     ELSE IF n >= av THEN [n |-> av, e |-> IF Env.eofw THEN "eof" ELSE "nil"]
     ELSE [n |-> n, e |-> "nil"]
(* io.ReaderAt *)
SrcReadAt(o, x, arm) ==
  LET av == Max2(0, Env.N - o)
  IN IF arm /\ Env.F >= o /\ (Env.F < o + x \/ (Env.fw /\ x > 0 /\ Env.F = o + x)) THEN [n |-> Env.F - o, e |-> "src"]
     ELSE IF x > av THEN [n |-> av, e |-> "eof"]
     ELSE [n |-> x, e |-> IF x = av /\ Env.eofw /\ x > 0 THEN "eof" ELSE "nil"]

(* the common readAt: one source call *)
One(o, x) == IF Env.kind = "at" THEN SrcReadAt(o, x, armed)
             ELSE SrcRead(IF Defect = "noSeek" THEN cursor ELSE o, x, armed)
(* seekerCommon.readFullAt: until filled *)
RECURSIVE Full(_, _, _)
Full(o, x, got) ==
  LET r == SrcRead(o + got, x - got, armed)
  IN IF got + r.n < x /\ r.e = "nil" /\ r.n > 0 THEN Full(o, x, got + r.n)
     ELSE [n |-> got + r.n, e |-> r.e]
FullAt(o, x) == IF Env.kind = "at" \/ Defect = "shortReadAt" THEN One(o, x) ELSE Full(o, x, 0)

Abstract(ev) == LET s == Succ(st, ev)
                IN /\ ok' = (s # {})
                   /\ st' = IF s # {} THEN CHOOSE x \in s : TRUE ELSE st
Ev(op, b) == [op |-> op, b |-> b, ac |-> 0, cl |-> 0, se |-> FALSE, e |-> "nil", n |-> 0,
              loc |-> -1, d |-> <<>>]
Bytes(p, n) == [i \in 1..n |-> IF p + i <= Env.N THEN Src(p + i - 1) ELSE 999]
Disarm(e) == armed' = (armed /\ ~ (e = "src" /\ Env.trans))

Read(b, k) ==
  IF st.mode[b] = "closed" \/ serr[b] # "nil"
  THEN /\ Abstract([Ev("read", b) EXCEPT !.e = IF st.mode[b] = "closed" THEN "closed" ELSE serr[b]] @@ [k |-> k])
       /\ UNCHANGED <<off, serr, length, cursor, armed>>
  ELSE
    LET o     == Min2(off[b], length)
        avail == length - o
        x     == Min2(k, avail)
        last  == k > avail
        r     == IF avail > 0 THEN One(o, x) ELSE [n |-> 0, e |-> "nil"]
        at    == IF Defect = "noSeek" /\ Env.kind = "seek" THEN cursor ELSE o
        e     == IF last /\ r.e = "nil" /\ (r.n = x \/ Defect = "eofOnShort") THEN "eof" ELSE r.e
    IN /\ Abstract([Ev("read", b) EXCEPT !.e = e, !.n = r.n, !.d = Bytes(at, r.n), !.se = (r.e = "src")]
                   @@ [k |-> k])
       /\ off' = [off EXCEPT ![b] = o + r.n]
       /\ serr' = [serr EXCEPT ![b] = e]
       /\ length' = IF (e = "eof" \/ (Defect = "truncate" /\ e # "nil")) /\ o + r.n < length
                    THEN o + r.n ELSE length
       /\ cursor' = IF Env.kind = "seek" /\ avail > 0 THEN at + r.n ELSE cursor
       /\ Disarm(r.e)

ReadAt(b, k, pos) ==
  IF st.mode[b] = "closed" \/ pos < 0
  THEN /\ Abstract([Ev("readat", b) EXCEPT !.e = IF st.mode[b] = "closed" THEN "closed" ELSE "other"]
                   @@ [k |-> k, o |-> pos])
       /\ UNCHANGED <<off, serr, length, cursor, armed>>
  ELSE
    LET o     == Min2(pos, length)
        avail == length - o
        x     == Min2(k, avail)
        last  == k > avail
        r     == IF avail > 0 THEN FullAt(o, x) ELSE [n |-> 0, e |-> "nil"]
        e     == IF last /\ r.e = "nil" THEN "eof" ELSE r.e
    IN /\ Abstract([Ev("readat", b) EXCEPT !.e = e, !.n = r.n, !.d = Bytes(o, r.n), !.se = (r.e = "src")]
                   @@ [k |-> k, o |-> pos])
       /\ cursor' = IF Env.kind = "seek" /\ avail > 0 THEN o + r.n ELSE cursor
       /\ off' = IF Defect = "readAtMoves" THEN [off EXCEPT ![b] = o + r.n] ELSE off
       /\ length' = IF Defect = "readAtLearns" /\ r.e = "eof" /\ r.n < x THEN o + r.n ELSE length
       /\ UNCHANGED serr
       /\ Disarm(r.e)

Seek(b, d, wh) ==
  LET base == IF wh = 0 THEN 0 ELSE IF wh = 1 THEN off[b] ELSE length
      e    == IF st.mode[b] = "closed" THEN "closed"
              ELSE IF wh > 2 THEN "whence"
              ELSE IF wh = 0 /\ d < 0 THEN "negstart"
              ELSE IF base + d < 0 THEN "negcomp" ELSE "nil"
      v    == IF wh > 2 THEN wh ELSE base + d
      new  == IF Defect = "noClamp" THEN base + d ELSE Min2(base + d, length)
  IN /\ Abstract([Ev("seek", b) EXCEPT !.e = e] @@
                 [o |-> d, wh |-> wh, off |-> IF e = "nil" THEN new ELSE -1, ev |-> v])
     /\ off' = IF e = "nil" THEN [off EXCEPT ![b] = new] ELSE off
     /\ serr' = IF e = "nil" /\ Defect # "keepErr" THEN [serr EXCEPT ![b] = "nil"] ELSE serr
     /\ UNCHANGED <<length, cursor, armed>>

BytesRemaining(b) ==
  LET v == IF st.mode[b] = "closed" THEN 0
           ELSE IF Defect = "negative" THEN length - off[b] ELSE Max2(0, length - off[b])
  IN /\ Abstract(Ev("len", b) @@ [v |-> v])
     /\ UNCHANGED <<off, serr, length, cursor, armed>>

Copy(b, c) ==
  /\ st.mode[c] = "absent"
  /\ Abstract(Ev("copy", b) @@ [c |-> c, caps |-> TRUE])
  /\ off' = [off EXCEPT ![c] = off[b]]
  /\ serr' = [serr EXCEPT ![c] = serr[b]]
  /\ UNCHANGED <<length, cursor, armed>>

Close(b) ==
  LET was == st.mode[b] = "open"
      last == OpenB = {b}
  IN /\ Abstract([Ev("close", b) EXCEPT !.e = IF was THEN "nil" ELSE "closed",
                                        !.cl = IF was /\ last THEN 1 ELSE 0])
     /\ off' = [off EXCEPT ![b] = 0] /\ serr' = [serr EXCEPT ![b] = "nil"]
     /\ length' = IF was /\ last THEN 0 ELSE length
     /\ UNCHANGED <<cursor, armed>>

Next == \/ \E b \in Live, k \in Ks : Read(b, k)
        \/ \E b \in Live, k \in Ks, o \in Offs : ReadAt(b, k, o)
        \/ \E b \in Live, o \in Offs, wh \in 0..3 : Seek(b, o, wh)
        \/ \E b \in Live : BytesRemaining(b) \/ Close(b)
        \/ \E b, c \in 1..MaxB : b \in Live /\ Copy(b, c)
Spec == Init /\ [][ok /\ Next]_vars

Refines == ok
LengthSound == OpenB # {} => length <= Env.L /\ length >= Min2(Env.N, Env.L)
OffsetsAgree == \A b \in OpenB : off[b] = st.pos[b] \/ (off[b] >= length /\ st.pos[b] >= length)
=============================================================================
