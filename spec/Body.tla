-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* Design model: an adversarial implementation may return anything at all; *)
(* only what BodyCore allows is a step.  The properties below are stated   *)
(* over ghost variables, independently of BodyCore's operators, so         *)
(* checking them shows that BodyCore is strict enough: no implementation   *)
(* whose traces BodyCore accepts can break them.                           *)
(***************************************************************************)
EXTENDS BodyEnv, TLC

CONSTANTS MaxB, Ks, Offs, Ms, Ns, Kinds

VARIABLES st,
          from,    \* slot -> position of the last repositioning (or start)
          out,     \* slot -> bytes delivered since then
          closes   \* how often the source was closed
vars == <<st, from, out, closes>>

AbsEnvs ==
  {e \in UNION {
     {[E0 EXCEPT !.kind = "bytes", !.N = n, !.L = n] : n \in Ns},
     {[E0 EXCEPT !.kind = "empty"], [E0 EXCEPT !.kind = "closed"]},
     {[E0 EXCEPT !.kind = "stream", !.N = n, !.L = l, !.F = f, !.closer = c, !.cerr = x] :
        n \in Ns, l \in {-1} \cup (Ns \cup {m + 1 : m \in Ns}), f \in {-1} \cup Ns,
        c \in BOOLEAN, x \in BOOLEAN},
     {[E0 EXCEPT !.kind = "at", !.N = n, !.L = l, !.F = f, !.closer = c] :
        n \in Ns, l \in Ns \cup {m + 1 : m \in Ns}, f \in {-1} \cup Ns, c \in BOOLEAN}} :
   /\ e.kind \in Kinds
   /\ (e.cerr => e.closer)
   /\ e.F <= e.N}

Init == \E env \in AbsEnvs :
          /\ st = InitState(env, MaxB)
          /\ from = [b \in 1..MaxB |-> 0]
          /\ out = [b \in 1..MaxB |-> <<>>]
          /\ closes = 0

(* What a wicked implementation may hand out: n bytes from anywhere. *)
Bytes(n) == {[i \in 1..n |-> Src(q + i - 1)] : q \in 0..1}
Errs == {"nil", "eof", "src", "closed", "werr", "other"}
(* whether the source reported its error just now: matters for random access *)
Sees == IF st.env.kind = "at" THEN BOOLEAN ELSE {FALSE}
Results(m) == UNION {{[n |-> n, d |-> d, loc |-> -1, e |-> e, se |-> s, w |-> n] :
                        d \in Bytes(n), e \in Errs, s \in Sees} : n \in 0..m}

Live == {b \in Slots(st) : st.mode[b] # "absent"}
Quiet == UNCHANGED closes
Gain(b, r) == /\ out' = [out EXCEPT ![b] = @ \o r.d]
              /\ UNCHANGED from

Read(b, k) == \E r \in Results(k + 1) :
  /\ st' \in ReadSucc(st, b, k, r)
  /\ Gain(b, r) /\ Quiet
IoCopy(b) == \E r \in Results(End(st.env) + 1) :
  /\ st' \in IoCopySucc(st, b, r)
  /\ Gain(b, r) /\ Quiet
WriteTo(b, m) == \E r \in Results(End(st.env) + 1) :
  /\ st' \in WriteToSucc(st, b, m, r)
  /\ Gain(b, r) /\ Quiet
ReadAt(b, k, o) == \E r \in Results(k + 1) :
  /\ st' \in ReadAtSucc(st, b, k, o, r)
  /\ UNCHANGED <<from, out, closes>>
SeekResults ==
  {[off |-> o, e |-> "nil", ev |-> 0] : o \in -1..(End(st.env) + 2)}
  \cup {[off |-> -1, e |-> e, ev |-> v] : e \in {"closed", "whence", "negstart", "negcomp"}, v \in -4..4}
Seek(b, o, wh) ==
  \E r \in SeekResults :
  /\ st' \in SeekSucc(st, b, o, wh, r)
  /\ from' = IF r.e = "nil" THEN [from EXCEPT ![b] = r.off] ELSE from
  /\ out' = IF r.e = "nil" THEN [out EXCEPT ![b] = <<>>] ELSE out
  /\ Quiet
Copy(b, c) == \E e \in {"nil", "other"}, caps \in BOOLEAN :
  /\ st' \in CopySucc(st, b, c, [e |-> e, caps |-> caps])
  /\ from' = [from EXCEPT ![c] = from[b]]
  /\ out' = [out EXCEPT ![c] = out[b]]
  /\ Quiet
Close(b) == \E e \in {"nil", "closed", "cerr"}, cl \in 0..2 :
  /\ st' \in CloseSucc(st, b, [e |-> e, cl |-> cl])
  /\ from' = [from EXCEPT ![b] = 0]
  /\ out' = [out EXCEPT ![b] = <<>>]
  /\ closes' = closes + cl

Next ==
  \E b \in Live :
    \/ \E k \in Ks : Read(b, k)
    \/ IoCopy(b)
    \/ \E m \in Ms : WriteTo(b, m)
    \/ \E k \in Ks, o \in Offs : ReadAt(b, k, o)
    \/ \E o \in Offs, wh \in 0..3 : Seek(b, o, wh)
    \/ \E c \in Slots(st) : Copy(b, c)
    \/ Close(b)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Open == OpenSlots(st)
HadReader == HasReader(st.env)

(* B01, B02, B06, B08: whatever a body handed out, by reading, by io.Copy   *)
(* or by WriteTo, is the source's bytes from where it was positioned.       *)
Faithful == \A b \in Open :
  /\ st.pos[b] = from[b] + Len(out[b])
  /\ \A i \in 1..Len(out[b]) : out[b][i] = Src(from[b] + i - 1)
  /\ Len(out[b]) > 0 => st.pos[b] <= End(st.env)

(* B01, B09: end-of-file only once every byte was handed out, and never     *)
(* instead of a failure.                                                    *)
EofMeansEnd == \A b \in Open : st.term[b] = "eof" =>
  /\ st.pos[b] >= (IF st.env.L < 0 THEN st.env.N ELSE Min2(st.env.N, st.env.L))
  /\ ~ (st.env.kind = "stream" /\ st.env.F >= 0
        /\ st.env.F < (IF st.env.L < 0 THEN st.env.N + 1 ELSE Min2(st.env.N, st.env.L)))
(* B09: a stream's error comes after exactly the bytes before it. *)
ErrorInPlace == \A b \in Open :
  (st.term[b] = "src" /\ st.env.kind = "stream") => st.pos[b] = st.env.F

(* B03, over the values BytesRemaining may report *)
LenSound == \A b \in Live : \A v \in RemValues(st, b) :
  /\ v >= -1
  /\ st.mode[b] = "closed" => v = 0
  /\ v = -1 => st.env.L < 0
  /\ (st.mode[b] = "open" /\ st.term[b] = "no" /\ v >= 0 /\ st.env.F < 0 /\ st.env.N >= st.env.L)
        => v = Max2(0, End(st.env) - st.pos[b])
  /\ (st.mode[b] = "open" /\ st.term[b] = "eof") => v = 0
(* once some copy has read up to where a stream really ends, with or        *)
(* without an error, nobody is told of bytes that will never come           *)
LenDiscovered == (st.env.kind = "stream" /\ st.env.L >= 0 /\ \E c \in Open : st.term[c] # "no") =>
  \A b \in Open : RemValues(st, b) = {Max2(0, Limit(st.env) - st.pos[b])}
LenTotal == \A b \in Live : RemValues(st, b) # {}

(* B04 *)
ClosedOnce == closes = IF HadReader /\ st.env.closer /\ Open = {} THEN 1 ELSE 0

(* B07: reading at a position reveals true bytes and an honest error. *)
ReadAtSound == \A b \in Open, k \in Ks, o \in Offs : \A r \in Results(k + 1) :
  (CanReadAt(st.env) /\ ReadAtSucc(st, b, k, o, r) # {}) =>
     /\ r.n <= k
     /\ r.n < k => r.e # "nil"
     /\ o >= 0 => \A i \in 1..r.n : r.d[i] = Src(o + i - 1)
     /\ (o >= 0 /\ r.e = "eof") => o + r.n >= Min2(st.env.N, st.env.L)
     /\ o < 0 => r.n = 0 /\ r.e \notin {"nil", "eof"}
     /\ ReadAtSucc(st, b, k, o, r) = {st}

(* B02: one call moves one body. *)
Independent == [][\A b, c \in 1..MaxB :
  (b # c /\ st.mode[b] # "absent" /\ st.mode[c] # "absent") =>
     \/ st'.pos[b] = st.pos[b] /\ st'.term[b] = st.term[b] /\ st'.mode[b] = st.mode[b]
     \/ st'.pos[c] = st.pos[c] /\ st'.term[c] = st.term[c] /\ st'.mode[c] = st.mode[c]]_vars
CopyIsEqual == [][\A c \in 1..MaxB :
  (st.mode[c] = "absent" /\ st'.mode[c] # "absent") =>
     \E b \in 1..MaxB : /\ b # c /\ st.mode[b] = st'.mode[c]
                        /\ st.pos[b] = st'.pos[c] /\ st.term[b] = st'.term[c]]_vars
(* B05 *)
ClosedForever == [][\A b \in 1..MaxB : st.mode[b] = "closed" =>
                      st'.mode[b] = "closed" /\ st'.pos[b] = st.pos[b]]_vars
(* B01: end-of-file and failures stay until repositioning or close. *)
TermSticky == [][\A b \in 1..MaxB : (st.term[b] # "no" /\ st'.term[b] # st.term[b]) =>
                    (st'.mode[b] = "closed" \/ CanSeek(st.env))]_vars
=============================================================================
