------------------------------ MODULE BodyCore ------------------------------
(***************************************************************************)
(* What a Body promises, operation by operation.                           *)
(*                                                                         *)
(* A state `st` describes one family of Bodies: an original and the copies *)
(* made of it, all serving the same source.                                *)
(*   st.env   the source: what it holds and how it behaves (constant)      *)
(*   st.mode  slot -> "absent" | "open" | "closed"                         *)
(*   st.pos   slot -> position in the source                               *)
(*   st.term  slot -> "no" | "eof" | "src": sticky outcome of reading      *)
(*   st.known the length as far as it is known: the declared one until a   *)
(*           Read runs into an earlier end of the source, or into the      *)
(*           failure of a forward-only one                                 *)
(*                                                                         *)
(* Every operation is given by an operator  XSucc(st, ..., r)  yielding    *)
(* the set of states that may follow when the call returned r; the empty   *)
(* set means that a correct Body cannot return r there.  The operators are *)
(* used by the design model (Body), by the scenario generator (BodyGen),   *)
(* by trace validation (BodyTrace) and by the linearizability check        *)
(* (BodyLin).                                                              *)
(*                                                                         *)
(* env fields used here:                                                   *)
(*   kind   "bytes" "empty" "closed" "stream" "seek" "at"                  *)
(*   N      bytes the source really holds                                  *)
(*   L      length known at construction, -1 if none                       *)
(*   F      position at which the source fails with an error, -1 if none   *)
(*   fw     that error comes together with the bytes before F (F > 0)      *)
(*   lazy   some of its reads return nothing                              *)
(*   closer, cerr   source is closeable; its Close fails                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Byte i of every source (0-based).  The driver uses the same formula; any *)
(* 9 consecutive bytes determine their position (tools/checksrc.py).        *)
SrcX(i) == ((i % 40009) * 3571 + 11) % 40009
SrcY(i) == (SrcX(i) * SrcX(i)) % 40009
Src(i)  == (((SrcX(i) * SrcY(i)) % 65521) \div 16 + (i \div 40009) * 17) % 256

Rand(env)  == env.kind \in {"bytes", "empty", "seek", "at"}
HasReader(env) == env.kind \in {"stream", "seek", "at"}
CanSeek(env)   == env.kind \in {"bytes", "empty", "closed", "seek", "at"}
CanReadAt(env) == CanSeek(env)
CanWriteTo(env) == env.kind \in {"bytes", "empty", "closed"}

(* Where the bytes end. *)
End(env) == IF env.L < 0 THEN env.N ELSE Min2(env.N, env.L)

(* A forward-only source that fails at F ends there, with that error, for  *)
(* everybody.  A failure exactly where a declared length ends need not be  *)
(* noticed, unless it comes with the last bytes before it.                  *)
StreamFails(env)    == env.kind = "stream" /\ env.F >= 0 /\ env.F <= End(env)
StreamMustFail(env) == /\ StreamFails(env)
                       /\ (env.F < End(env) \/ env.L < 0 \/ env.N < env.L \/ env.fw)
Limit(env) == IF StreamFails(env) THEN env.F ELSE End(env)

(* The bytes a call transferred: few are recorded in full (d), more as the *)
(* position in the source where they are found contiguously (loc).         *)
DataOK(p, r) ==
  IF r.n <= 8 THEN /\ Len(r.d) = r.n
                   /\ \A i \in 1..r.n : r.d[i] = Src(p + i - 1)
              ELSE r.loc = p

Slots(st) == 1..Len(st.pos)
OpenSlots(st) == {b \in Slots(st) : st.mode[b] = "open"}
Set(f, b, v) == [f EXCEPT ![b] = v]

InitState(env, nslots) ==
  [env  |-> env,
   mode |-> [b \in 1..nslots |-> IF b # 1 THEN "absent"
                                 ELSE IF env.kind = "closed" THEN "closed" ELSE "open"],
   pos  |-> [b \in 1..nslots |-> 0],
   term |-> [b \in 1..nslots |-> "no"],
   known |-> env.L]

(* A source with random access reported its error during this very call     *)
(* (r.se), so the call must report it: it may not come again.               *)
Swallowed(env, r) == Rand(env) /\ r.se

(* What a copy learns by running into a stream's failure at q, all copies   *)
(* know: the stream ends there.  (A failure of a source with random access  *)
(* may pass.)                                                               *)
Discovered(st, q) == IF st.env.kind = "stream" THEN Min2(st.known, q) ELSE st.known

-----------------------------------------------------------------------------
(* Read(b, k) = r : r.n bytes, error class r.e, r.se: the source reported   *)
(* its error during this very call.                                         *)
ReadSucc(st, b, k, r) ==
  LET env == st.env
      p   == st.pos[b]
      lim == Limit(env)
  IN CASE st.mode[b] = "absent" -> {}
       [] st.mode[b] = "closed" -> IF r.n = 0 /\ r.e = "closed" THEN {st} ELSE {}
       [] st.term[b] # "no" ->
            IF r.n = 0 /\ (r.e = st.term[b] \/ (k = 0 /\ r.e = "nil")) THEN {st} ELSE {}
       [] OTHER ->
            IF ~ (r.n >= 0 /\ r.n <= k /\ r.n <= Max2(0, lim - p) /\ DataOK(p, r)) THEN {}
            ELSE CASE r.e = "nil" ->
                        IF (r.n > 0 \/ k = 0 \/ env.lazy) /\ ~ Swallowed(env, r)
                        THEN {[st EXCEPT !.pos[b] = p + r.n]} ELSE {}
                   [] r.e = "eof" ->
                        IF p + r.n >= End(env) /\ ~ StreamMustFail(env) /\ ~ Swallowed(env, r)
                        THEN {[st EXCEPT !.pos[b] = p + r.n, !.term[b] = "eof",
                                         !.known = Min2(@, p + r.n)]}
                        ELSE {}
                   [] r.e = "src" ->
                        IF IF env.kind = "stream" THEN StreamFails(env) /\ p + r.n = env.F
                                                  ELSE r.se
                        THEN {[st EXCEPT !.pos[b] = p + r.n, !.term[b] = "src",
                                         !.known = Discovered(st, p + r.n)]}
                        ELSE {}
                   [] OTHER -> {}

(* BytesRemaining(b): the values it may report. *)
RemValues(st, b) ==
  LET env == st.env
      p   == st.pos[b]
      real  == Max2(0, Limit(env) - p)     \* what reading would still deliver
      known == Max2(0, st.known - p)       \* what the declared length says
  IN CASE st.mode[b] = "closed" -> {0}
       [] st.term[b] = "eof"    -> {0}
       [] st.term[b] = "src"    -> IF Rand(env) THEN {0, known, real} ELSE {0}
       [] env.L < 0             -> {-1, real}
       [] env.N < env.L         -> IF Rand(env) THEN {known} ELSE {known, real}
       [] StreamFails(env)      -> {known, real}
       [] OTHER                 -> {known}

LenSucc(st, b, r) ==
  IF st.mode[b] # "absent" /\ r.v \in RemValues(st, b) THEN {st} ELSE {}

(* Seek(b, off, wh) = (r.off, r.e); r.ev is the value inside a typed error. *)
SeekEnds(st) == {st.known}
SeekBases(st, b, wh) ==
  CASE wh = 0 -> {0}
    [] wh = 1 -> IF st.pos[b] > End(st.env) THEN {st.pos[b], End(st.env)} ELSE {st.pos[b]}
    [] wh = 2 -> SeekEnds(st)
SeekSucc(st, b, off, wh, r) ==
  CASE st.mode[b] = "absent" \/ ~ CanSeek(st.env) -> {}
    [] st.mode[b] = "closed" -> IF r.e = "closed" THEN {st} ELSE {}
    [] wh \notin 0..2 -> IF r.e = "whence" /\ r.ev = wh THEN {st} ELSE {}
    [] wh = 0 /\ off < 0 -> IF r.e = "negstart" /\ r.ev = off THEN {st} ELSE {}
    [] OTHER ->
         IF \E base \in SeekBases(st, b, wh) :
              \/ base + off < 0 /\ r.e = "negcomp" /\ r.ev = base + off
         THEN {st}
         ELSE IF \E base \in SeekBases(st, b, wh), end \in SeekEnds(st) :
                   base + off >= 0 /\ r.e = "nil" /\ r.off = Min2(base + off, end)
              THEN {[st EXCEPT !.pos[b] = r.off, !.term[b] = "no"]}
              ELSE {}

(* ReadAt(b, k, off) = r *)
ReadAtSucc(st, b, k, off, r) ==
  LET env == st.env
  IN CASE st.mode[b] = "absent" \/ ~ CanReadAt(env) -> {}
       [] st.mode[b] = "closed" -> IF r.n = 0 /\ r.e = "closed" THEN {st} ELSE {}
       [] off < 0 -> IF r.n = 0 /\ r.e \notin {"nil", "eof", "panic", "hang", "crash"} THEN {st} ELSE {}
       [] OTHER ->
            IF /\ r.n >= 0 /\ r.n <= k /\ r.n <= Max2(0, End(env) - off)
               /\ DataOK(off, r)
               /\ \/ r.e = "nil" /\ r.n = k /\ ~ Swallowed(env, r)
                  \/ r.e = "eof" /\ off + r.n >= End(env) /\ ~ Swallowed(env, r)
                  \/ r.e = "src" /\ r.se
            THEN {st} ELSE {}

(* WriteTo(b, w), w accepting m bytes before failing (m = -1: all).  r.w    *)
(* is the number of bytes w received, r.d / r.loc what they were.           *)
WriteToSucc(st, b, m, r) ==
  LET env == st.env
      p   == st.pos[b]
      rem == Max2(0, End(env) - p)
  IN CASE st.mode[b] = "absent" \/ ~ CanWriteTo(env) -> {}
       [] st.mode[b] = "closed" -> IF r.n = 0 /\ r.w = 0 /\ r.e = "closed" THEN {st} ELSE {}
       [] OTHER ->
            IF ~ (r.n = r.w /\ DataOK(p, r)) THEN {}
            ELSE CASE r.e = "nil" ->
                        IF r.n = rem /\ (m < 0 \/ m >= rem)
                        THEN {[st EXCEPT !.pos[b] = p + rem, !.term[b] = "eof"]} ELSE {}
                   [] r.e = "werr" ->
                        IF m >= 0 /\ m < rem /\ r.n = m
                        THEN {[st EXCEPT !.pos[b] = p + m]} ELSE {}
                   [] OTHER -> {}

(* io.Copy(w, b) with a w that accepts everything: r.n = r.w bytes, those   *)
(* that w received.                                                         *)
IoCopySucc(st, b, r) ==
  LET env == st.env
      p   == st.pos[b]
      rem == Max2(0, Limit(env) - p)
      moved(e) == [st EXCEPT !.pos[b] = p + r.n, !.term[b] = e,
                             !.known = IF e = "eof" THEN Min2(@, p + r.n)
                                       ELSE Discovered(st, p + r.n)]
  IN CASE st.mode[b] = "absent" -> {}
       [] st.mode[b] = "closed" -> IF r.n = 0 /\ r.w = 0 /\ r.e = "closed" THEN {st} ELSE {}
       [] st.term[b] # "no" ->
            IF r.n = 0 /\ r.w = 0 /\ r.e = (IF st.term[b] = "eof" THEN "nil" ELSE st.term[b])
            THEN {st} ELSE {}
       [] OTHER ->
            IF ~ (r.n = r.w /\ r.n >= 0 /\ r.n <= rem /\ DataOK(p, r)) THEN {}
            ELSE CASE r.e = "nil" ->
                        IF p + r.n >= End(env) /\ ~ StreamMustFail(env) /\ ~ Swallowed(env, r)
                        THEN {moved("eof")} ELSE {}
                   [] r.e = "src" ->
                        IF IF env.kind = "stream" THEN StreamFails(env) /\ p + r.n = env.F
                                                  ELSE r.se
                        THEN {moved("src")} ELSE {}
                   [] OTHER -> {}

(* Copy(b) into slot c.  The copy offers at least the same interfaces.      *)
CopySucc(st, b, c, r) ==
  IF st.mode[b] = "absent" \/ st.mode[c] # "absent" \/ r.e # "nil" \/ ~ r.caps THEN {}
  ELSE {[st EXCEPT !.mode[c] = st.mode[b], !.pos[c] = st.pos[b], !.term[c] = st.term[b]]}

(* Close(b) = r.e;  r.cl: how often the source was closed during the call.  *)
(* held: something else than an open member still holds on to the source.   *)
ClosedSlot(st, b) == [st EXCEPT !.mode[b] = "closed", !.term[b] = "no", !.pos[b] = 0]
Released(st, r, last) ==
  LET cl == IF last /\ st.env.closer THEN 1 ELSE 0
  IN /\ r.cl = cl
     /\ r.e = IF cl = 1 /\ st.env.cerr THEN "cerr" ELSE "nil"
CloseWith(st, b, r, held) ==
  CASE st.mode[b] = "absent" -> {}
    [] st.mode[b] = "closed" -> IF r.e = "closed" /\ r.cl = 0 THEN {st} ELSE {}
    [] OTHER -> IF Released(st, r, OpenSlots(st) = {b} /\ ~ held) THEN {ClosedSlot(st, b)} ELSE {}
CloseSucc(st, b, r) == CloseWith(st, b, r, FALSE)

(* Unwrap(b): "src" is the very Reader the family was made from.            *)
UnwrapSucc(st, b, r) ==
  IF st.mode[b] # "absent"
     /\ r.u = IF st.mode[b] = "open" /\ HasReader(st.env) THEN "src" ELSE "nil"
  THEN {st} ELSE {}

-----------------------------------------------------------------------------
(* One recorded call: operation, arguments and result in one record.  No    *)
(* call except the last Close may close the source, and no call may touch   *)
(* it after that.                                                           *)
SourceUndisturbed(ev) == ev.ac = 0 /\ (ev.op # "close" => ev.cl = 0)

CallSucc(st, ev) ==
  CASE ev.op = "read"    -> ReadSucc(st, ev.b, ev.k, ev)
    [] ev.op = "len"     -> LenSucc(st, ev.b, ev)
    [] ev.op = "seek"    -> SeekSucc(st, ev.b, ev.o, ev.wh, ev)
    [] ev.op = "readat"  -> ReadAtSucc(st, ev.b, ev.k, ev.o, ev)
    [] ev.op = "writeto" -> WriteToSucc(st, ev.b, ev.m, ev)
    [] ev.op = "iocopy"  -> IoCopySucc(st, ev.b, ev)
    [] ev.op = "copy"    -> CopySucc(st, ev.b, ev.c, ev)
    [] ev.op = "close"   -> CloseSucc(st, ev.b, ev)
    [] ev.op = "unwrap"  -> UnwrapSucc(st, ev.b, ev)
    [] OTHER             -> {}

Succ(st, ev) == IF SourceUndisturbed(ev) THEN CallSucc(st, ev) ELSE {}
=============================================================================
