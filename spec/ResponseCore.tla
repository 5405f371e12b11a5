---------------------------- MODULE ResponseCore ----------------------------
(***************************************************************************)
(* Builders and Responses: what every call does to every object (R01, R02, *)
(* R06), and what serving a Response looks like to the ResponseWriter and  *)
(* to the body's source (R03, R04, R05).                                   *)
(*                                                                         *)
(* State                                                                   *)
(*   st.b   builder slot  -> Absent or [live, code, h, body, err, gen]     *)
(*   st.r   response slot -> Absent or [live, code, h, body, err, auto]    *)
(*   st.m   the caller's own header maps                                   *)
(*   st.src source -> [closer, cerr, refs, closed]                         *)
(* Headers are functions from canonical names to sequences of values.      *)
(* A body is NoBody or                                                     *)
(*   [src |-> its source, 0 if it has none, at |-> position of its next    *)
(*    byte in the common content, n |-> bytes left, known |-> the length   *)
(*    is known, f |-> n, or how many bytes come before its source fails,   *)
(*    raw |-> the bytes themselves (payloads and pages), closed]           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, WriterCore, Payload

Absent == [live |-> FALSE]
NoBdy == [src |-> -1, nocopy |-> FALSE]
EmptyH == [x \in {} |-> <<>>]
HasBody(o) == o.body.src >= 0

R0(nb, nr, nm) == [b |-> [i \in 1..nb |-> Absent], r |-> [i \in 1..nr |-> Absent],
                   m |-> [i \in 1..nm |-> EmptyH], src |-> <<>>]
FreshB == [live |-> TRUE, code |-> 0, h |-> EmptyH, body |-> NoBdy, err |-> 0, gen |-> 0]

(* ---- headers ---------------------------------------------------------- *)
Canon(k) == CASE k = "x-a" -> "X-A" [] k = "X-a" -> "X-A" [] k = "content-type" -> "Content-Type"
              [] k = "push" -> "Push" [] k = "CONTENT-LENGTH" -> "Content-Length" [] OTHER -> k
HPut(h, k, vs) == [x \in DOMAIN h \cup {k} |-> IF x = k THEN vs ELSE h[x]]
HDel(h, k) == [x \in DOMAIN h \ {k} |-> h[x]]
HGet(h, k) == IF k \in DOMAIN h THEN h[k] ELSE <<>>
HAdd(h, k, v) == HPut(h, k, Append(HGet(h, k), v))
(* a caller's direct changes of a map it holds: assignment, appending,      *)
(* overwriting an element of a list in place, deletion                      *)
HMut(h, how, k, v) ==
  CASE how = "set"  -> HPut(h, k, <<v>>)
    [] how = "app"  -> HAdd(h, k, v)
    [] how = "two"  -> HPut(h, k, <<v, "second">>)
    [] how = "none" -> HPut(h, k, <<>>)
    [] how = "elem" -> IF Len(HGet(h, k)) > 0 THEN HPut(h, k, [h[k] EXCEPT ![1] = v]) ELSE h
    [] how = "last" -> IF Len(HGet(h, k)) > 0 THEN HPut(h, k, [h[k] EXCEPT ![Len(h[k])] = v]) ELSE h
    [] how = "del"  -> HDel(h, k)

(* ---- argument tables: "" (an impossible header value) means: panics ---- *)
CTypes == << [i |-> "text/html; charset=utf-8", o |-> "text/html; charset=utf-8"],
             [i |-> "TEXT/Plain", o |-> "text/plain"],
             [i |-> "application/json;charset=UTF-8", o |-> "application/json; charset=UTF-8"],
             [i |-> "", o |-> "PANIC"], [i |-> "text/", o |-> "PANIC"],
             [i |-> "a/b; =c", o |-> "PANIC"], [i |-> "text/plain; charset", o |-> "PANIC"] >>
Trims == << [i |-> "en", o |-> "en"], [i |-> "  de, fr ", o |-> "de, fr"], [i |-> "gzip", o |-> "gzip"] >>
ETags == << [i |-> "abc", s |-> TRUE, o |-> "\"abc\""], [i |-> "abc", s |-> FALSE, o |-> "W/\"abc\""],
            [i |-> "", s |-> TRUE, o |-> "\"\""] >>
Digests == << [a |-> "sha-256", n |-> 3, o |-> "sha-256=AQID"], [a |-> "md5", n |-> 1, o |-> "md5=AQ=="],
              [a |-> "", n |-> 3, o |-> "PANIC"], [a |-> "md5", n |-> 0, o |-> "PANIC"] >>
Payloads == [json   |-> "application/json", pretty |-> "application/json",
             proto  |-> "application/vnd.google.protobuf", text |-> "text/plain; charset=utf-8"]
(* the value the driver uses: {"a": [1, "<&>"]}; the message: StringValue "hi<" *)
PayVal == [k |-> "obj", ks |-> << <<97>> >>, xs |-> << [k |-> "arr", xs |-> << [k |-> "num", txt |-> <<49>>], [k |-> "str", cps |-> <<60, 38, 62>>] >>] >>]
PayMsg == [m |-> "string", cps |-> <<104, 105, 60>>]
PayloadOK(op, raw) == CASE op = "json" -> JSONOK(PayVal, raw) [] op = "pretty" -> PrettyOK(PayVal, raw)
                        [] op = "proto" -> raw = ProtoBytes(PayMsg) [] op = "text" -> TextOK(PayMsg, raw)

RawBody(raw) == [nocopy |-> FALSE, src |-> 0, at |-> -1, n |-> Len(raw), known |-> TRUE, f |-> Len(raw), raw |-> raw, closed |-> FALSE]
SrcBody(s, x) == [nocopy |-> x.kind = "nocopy", src |-> s, at |-> x.base + x.pre, n |-> x.n - x.pre, known |-> x.known,
                  f |-> (IF x.f < 0 THEN x.n ELSE x.f) - x.pre, raw |-> <<>>, closed |-> FALSE]
Src0(x) == [closer |-> x.closer, cerr |-> x.cerr, refs |-> 1, closed |-> FALSE]

(* ---- generated pages (R06) --------------------------------------------- *)
Trim(t) == LET blank(c) == c \in 9..13 \cup {32}
               keep == {j \in 1..Len(t) : ~ blank(t[j])}
           IN IF keep = {} THEN <<>> ELSE SubSeq(t, CHOOSE j \in keep : \A x \in keep : j <= x, CHOOSE j \in keep : \A x \in keep : j >= x)
HasSub(t, s) == \E j \in 0..(Len(t) - Len(s)) : \A x \in 1..Len(s) : t[j + x] = s[x]
Count(t, c) == Cardinality({j \in 1..Len(t) : t[j] = c})
Starts(t, j, s) == j + Len(s) - 1 <= Len(t) /\ \A x \in 1..Len(s) : t[j + x - 1] = s[x]
(* character references; [cp, next], next = 0: not one *)
Entity(t, j) ==
  CASE Starts(t, j, <<38, 97, 109, 112, 59>>)      -> [cp |-> 38, next |-> j + 5]     \* &amp;
    [] Starts(t, j, <<38, 108, 116, 59>>)          -> [cp |-> 60, next |-> j + 4]     \* &lt;
    [] Starts(t, j, <<38, 103, 116, 59>>)          -> [cp |-> 62, next |-> j + 4]     \* &gt;
    [] Starts(t, j, <<38, 113, 117, 111, 116, 59>>) -> [cp |-> 34, next |-> j + 6]    \* &quot;
    [] Starts(t, j, <<38, 97, 112, 111, 115, 59>>) -> [cp |-> 39, next |-> j + 6]     \* &apos;
    [] Starts(t, j, <<38, 35, 51, 52, 59>>)        -> [cp |-> 34, next |-> j + 5]     \* &#34;
    [] Starts(t, j, <<38, 35, 51, 57, 59>>)        -> [cp |-> 39, next |-> j + 5]     \* &#39;
    [] OTHER                                       -> [cp |-> 38, next |-> 0]
RECURSIVE Unescape(_, _, _)
Unescape(t, j, acc) ==
  IF j > Len(t) THEN acc
  ELSE IF t[j] # 38 THEN Unescape(t, j + 1, Append(acc, t[j]))
  ELSE LET e == Entity(t, j) IN IF e.next = 0 THEN Append(acc, -1) ELSE Unescape(t, e.next, Append(acc, e.cp))
(* the page around the target: what the same generator made of the plain    *)
(* target "/" (event field plain); in both, the target may occur any number *)
(* of times, but is markup in neither                                       *)
Markup == {60, 62, 34, 39}
RedirectBodyOK(raw, plain, target) ==
  LET u == Unescape(raw, 1, <<>>)
  IN /\ -1 \notin {u[j] : j \in 1..Len(u)}
     /\ HasSub(u, target)
     /\ \A c \in Markup : Count(raw, c) = Count(plain, c)
ErrorBodyOK(raw, code, text) ==
  /\ HasSub(raw, Digits(code)) /\ HasSub(raw, text)
Secret == <<115, 51, 99, 114, 51, 116>>       \* every error's text contains it

(* ---- snapshots: what the objects show ------------------------------------ *)
ShowsH(h, snap) == {<<snap[j].k, snap[j].v>> : j \in 1..Len(snap)} = {<<k, h[k]>> : k \in DOMAIN h}
ShowsRem(body, rem) == IF body.closed THEN rem = 0
                       ELSE IF body.f < body.n THEN rem >= -1      \* its source fails on the way
                       ELSE IF body.known THEN rem = body.n ELSE rem \in {-1, body.n}
ShowsBody(o, s) == s.body = HasBody(o) /\ (HasBody(o) => ShowsRem(o.body, s.rem))
ShowsB(o, s) == IF ~ o.live THEN ~ s.live
                ELSE /\ s.live /\ s.code = o.code /\ s.err = o.err /\ s.gen = o.gen
                     /\ (s.seen => ShowsH(o.h, s.h)) /\ ShowsBody(o, s)
ShowsR(o, s) == IF ~ o.live THEN ~ s.live
                ELSE s.live /\ s.code = o.code /\ s.err = o.err /\ ShowsH(o.h, s.h) /\ ShowsBody(o, s)

(* ---- builder calls: [panic, st] expected --------------------------------- *)
Same(st) == [panic |-> FALSE, st |-> st]
Panics(st) == [panic |-> TRUE, st |-> st]
SetB(st, i, o) == Same([st EXCEPT !.b[i] = o])
SetH(st, i, h) == Same([st EXCEPT !.b[i].h = h])

BuildOf(o, rem) ==
  LET h1 == IF "Content-Type" \in DOMAIN o.h THEN o.h ELSE HPut(o.h, "Content-Type", <<"application/octet-stream">>)
      auto == rem >= 0 /\ "Content-Length" \notin DOMAIN o.h
      h2 == IF auto THEN HPut(h1, "Content-Length", <<ToString(rem)>>) ELSE h1
  IN [live |-> TRUE, code |-> IF o.code = 0 THEN 200 ELSE o.code, h |-> h2, body |-> o.body, err |-> o.err, auto |-> auto]

AddRef(st, body) == IF body.src >= 1 /\ ~ body.closed THEN [st EXCEPT !.src[body.src].refs = @ + 1] ELSE st

(* Headers of a page: those of a custom generator are known; those of the   *)
(* default one are adopted from the snapshot (after PageOK has judged them) *)
FromSnap(snap) == LET ps == {snap[j] : j \in 1..Len(snap)}
                  IN [k \in {q.k : q \in ps} |-> (CHOOSE q \in ps : q.k = k).v]
GenH(g, code) == ("X-Gen" :> <<ToString(g)>>) @@ ("Content-Type" :> <<"text/x-gen">>) @@ ("X-Code" :> <<ToString(code)>>)
GenBody(g, ev) == [nocopy |-> FALSE, src |-> 0, at |-> ev.base, n |-> 7, known |-> TRUE, f |-> 7, raw |-> <<>>, closed |-> FALSE]

PageArgsOK(ev) == IF ev.op = "redirect" THEN ev.code \in 300..399 /\ Trim(ev.loc) # <<>>
                  ELSE ev.code \in 200..999 /\ ev.v # 0
PageOf(o, ev, snap) ==
  [live |-> TRUE, code |-> ev.code, err |-> IF ev.op = "redirect" THEN 0 ELSE ev.v, gen |-> o.gen,
   h |-> IF o.gen = 0 THEN FromSnap(snap.h) ELSE GenH(o.gen, ev.code),
   body |-> IF o.gen = 0 THEN RawBody(ev.raw) ELSE GenBody(o.gen, ev)]
(* the default page *)
DefaultPageOK(ev, snap) ==
  LET h == FromSnap(snap.h)
  IN /\ HGet(h, "Content-Length") = <<ToString(Len(ev.raw))>>
     /\ "Content-Type" \in DOMAIN h
     /\ \A k \in DOMAIN h : k \notin {"X-A", "X-B", "X-Gen", "X-Code", "Push", "Etag", "Digest", "Vary"}
     /\ IF ev.op = "redirect"
        THEN /\ ev.lochdr = <<Trim(ev.loc)>>
             /\ RedirectBodyOK(ev.raw, ev.plain, Trim(ev.loc))
        ELSE /\ ErrorBodyOK(ev.raw, ev.code, ev.text)
             /\ ~ HasSub(ev.raw, Secret) /\ ~ HasSub(ev.hraw, Secret)
(* a custom generator is called once, with the arguments *)
GenCallOK(o, ev) == IF o.gen = 0 THEN ev.gens = <<>>
                    ELSE /\ Len(ev.gens) = 1 /\ ev.gens[1].g = o.gen /\ ev.gens[1].code = ev.code
                         /\ ev.gens[1].kind = ev.op
                         /\ IF ev.op = "redirect" THEN ev.gens[1].loc = Trim(ev.loc) ELSE ev.gens[1].err = ev.v

(* Expected outcome of one call; `snap` is what the touched builder showed  *)
(* before the call (rem) and after it.                                      *)
Expect(st, ev) ==
  LET i == ev.b
      o == IF i > 0 THEN st.b[i] ELSE Absent
  IN CASE ev.op = "new"     -> SetB(st, i, FreshB)
       [] ev.op = "mapmut"  -> Same([st EXCEPT !.m[ev.m] = HMut(@, ev.how, ev.k, ev.s)])
       [] ev.op = "hdrmut"  -> SetH(st, i, HMut(o.h, ev.how, ev.k, ev.s))
       [] ev.op = "status"  -> IF ev.v \in 200..999 THEN SetB(st, i, [o EXCEPT !.code = ev.v]) ELSE Panics(st)
       [] ev.op = "headers" -> SetH(st, i, st.m[ev.m])
       [] ev.op = "header"  -> IF ev.k = "" THEN Panics(st)
                               ELSE SetH(st, i, IF ev.app THEN HAdd(o.h, Canon(ev.k), ev.s) ELSE HPut(o.h, Canon(ev.k), <<ev.s>>))
       [] ev.op = "without" -> IF ev.k = "" THEN Panics(st) ELSE SetH(st, i, HDel(o.h, Canon(ev.k)))
       [] ev.op = "ctype"   -> IF CTypes[ev.v].o = "PANIC" THEN Panics(st) ELSE SetH(st, i, HPut(o.h, "Content-Type", <<CTypes[ev.v].o>>))
       [] ev.op = "lang"    -> SetH(st, i, HPut(o.h, "Content-Language", <<Trims[ev.v].o>>))
       [] ev.op = "enc"     -> SetH(st, i, HPut(o.h, "Content-Encoding", <<Trims[ev.v].o>>))
       [] ev.op = "etag"    -> SetH(st, i, HPut(o.h, "Etag", <<ETags[ev.v].o>>))
       [] ev.op = "digest"  -> IF Digests[ev.v].o = "PANIC" THEN Panics(st) ELSE SetH(st, i, HAdd(o.h, "Digest", Digests[ev.v].o))
       [] ev.op = "body"    -> LET s == Append(st.src, Src0(ev.x))
                               IN SetB([st EXCEPT !.src = s], i, [o EXCEPT !.body = SrcBody(Len(s), ev.x)])
       [] ev.op = "nilbody" -> Panics(st)
       [] ev.op \in DOMAIN Payloads ->
                               SetB(st, i, [o EXCEPT !.body = RawBody(ev.raw), !.h = HPut(o.h, "Content-Type", <<Payloads[ev.op]>>)])
       [] ev.op = "badjson" -> Panics(st)
       [] ev.op = "err"     -> SetB(st, i, [o EXCEPT !.err = ev.v])
       [] ev.op = "gen"     -> IF ev.v = 0 THEN Panics(st) ELSE SetB(st, i, [o EXCEPT !.gen = ev.v])
       [] ev.op \in {"redirect", "errpage"} ->
                               IF PageArgsOK(ev) THEN SetB(st, i, PageOf(o, ev, ev.sb[ev.b])) ELSE Panics(st)
       [] ev.op = "copy" /\ o.body.nocopy -> Same(st)
       [] ev.op = "rcopy" /\ st.r[ev.r].body.nocopy -> Same(st)
       [] ev.op = "copy"    -> SetB(AddRef(st, o.body), ev.c, o)
       [] ev.op = "build"   -> IF ~ HasBody(o) THEN Panics(st)
                               ELSE Same([st EXCEPT !.b[i] = [FreshB EXCEPT !.gen = o.gen],
                                                    !.r[ev.c] = BuildOf(o, ev.rem)])
       [] ev.op = "rcopy"   -> LET q == st.r[ev.r] IN Same([AddRef(st, q.body) EXCEPT !.r[ev.c] = q])

Touched(ev) == CASE ev.op \in {"copy"} -> {<<"b", ev.c>>}
                 [] ev.op = "build"    -> {<<"b", ev.b>>, <<"r", ev.c>>}
                 [] ev.op = "rcopy"    -> {<<"r", ev.c>>}
                 [] ev.op = "mapmut"   -> {<<"m", ev.m>>}
                 [] ev.op = "serve"    -> {<<"r", ev.r>>}
                 [] ev.op = "pserve"   -> {<<"r", ev.rs[j]>> : j \in 1..Len(ev.rs)}
                 [] OTHER              -> {<<"b", ev.b>>}
IsPage(ev) == ev.op \in {"redirect", "errpage"}

(* Which objects do not show what they should? *)
Wrong(st, ev) ==
  {<<"b", j>> : j \in {x \in DOMAIN st.b : ~ ShowsB(st.b[x], ev.sb[x])}}
  \cup {<<"r", j>> : j \in {x \in DOMAIN st.r : ~ ShowsR(st.r[x], ev.sr[x])}}
  \cup {<<"s", j>> : j \in {x \in DOMAIN st.src : ev.sc[x] # (IF st.src[x].closed /\ st.src[x].closer THEN 1 ELSE 0)}}
  \cup {<<"m", j>> : j \in {x \in DOMAIN st.m : ~ ShowsH(st.m[x], ev.sm[x])}}

CallBroken(st, ev) ==
  LET x == Expect(st, ev)
      wrong == Wrong(x.st, ev)
      near == wrong \cap Touched(ev)
      far == wrong \ Touched(ev)
      page == IsPage(ev) /\ PageArgsOK(ev)
      failing == CASE ev.op = "copy" -> st.b[ev.b].body.nocopy [] ev.op = "rcopy" -> st.r[ev.r].body.nocopy [] OTHER -> FALSE
  IN (IF ev.e # (IF failing THEN "src" ELSE "nil") THEN {"R02"} ELSE {})
     \cup (IF ~ ev.same THEN {"R01"} ELSE {})
     \cup (IF ev.panic # x.panic THEN (IF IsPage(ev) THEN {"R06"} ELSE {"R01"}) \cup (IF ev.op \in {"copy", "rcopy"} THEN {"R02"} ELSE {}) ELSE {})
     \cup (IF near = {} THEN {}
           ELSE CASE IsPage(ev) -> {"R06"}
                  [] ev.op \in {"copy", "rcopy"} -> {"R02"} \cup (IF ev.op = "copy" /\ ev.sb[ev.c].live /\ st.b[ev.b].gen # ev.sb[ev.c].gen THEN {"R06"} ELSE {})
                  [] ev.op = "headers" -> {"R01", "R02"}
                  [] ev.op = "build" -> {"R01"}
                       \cup (IF <<"r", ev.c>> \in near THEN {"R03"} ELSE {})
                       \cup (IF st.b[ev.b].live /\ ev.sb[ev.b].live /\ ev.sb[ev.b].gen # st.b[ev.b].gen THEN {"R06"} ELSE {})
                  [] OTHER -> {"R01"})
     \cup (IF far = {} THEN {} ELSE {"R02"})
     \cup (IF page /\ ~ ev.panic /\ (~ GenCallOK(st.b[ev.b], ev) \/ (st.b[ev.b].gen = 0 /\ ~ DefaultPageOK(ev, ev.sb[ev.b]))) THEN {"R06"} ELSE {})
     \cup (IF ev.op \in DOMAIN Payloads /\ ~ ev.panic /\ ~ PayloadOK(ev.op, ev.raw) THEN {"R01"} ELSE {})

(* ---- serving -------------------------------------------------------------- *)
(* w: the writer: pu (it can push), perr (outcomes of the pushes), max (body  *)
(* bytes it accepts, -1 all), wrap (in a wrapping Writer), head, pre (headers *)
(* already there).  ev.calls is what it received; the outcome is ev.e.        *)
PushList(q) == HGet(q.h, "Push")
PushErr(w, j) == IF j <= Len(w.perr) THEN w.perr[j] ELSE "nil"
PushStops(w, q) == {j \in 1..Len(PushList(q)) : PushErr(w, j) = "push"}
FirstStop(w, q) == IF PushStops(w, q) = {} THEN 0 ELSE CHOOSE j \in PushStops(w, q) : \A x \in PushStops(w, q) : j <= x
Stopped(w, q) == w.pu /\ FirstStop(w, q) > 0
Pushes(calls) == SelectSeq(calls, LAMBDA c : c.c = "push")
Rest(calls) == SelectSeq(calls, LAMBDA c : c.c # "push" /\ ~ Silent(c))
NoPushAfter(calls) == \A j \in 1..Len(calls) : calls[j].c = "push" => \A x \in 1..(j - 1) : calls[x].c = "push"

R05Serve(q, w, x) ==
  LET ps == Pushes(x.calls)
      want == IF ~ w.pu THEN 0 ELSE IF Stopped(w, q) THEN FirstStop(w, q) ELSE Len(PushList(q))
  IN /\ Len(ps) = want
     /\ \A j \in 1..want : j <= Len(ps) => ps[j].s = PushList(q)[j]
     /\ NoPushAfter(x.calls)
     /\ Stopped(w, q) => Rest(x.calls) = <<>> /\ x.e = "push"
     /\ ~ Stopped(w, q) => x.e # "push" /\ x.e # "notsup"
     /\ "Push" \notin DOMAIN FromSnap(x.final)
     /\ \A j \in 1..Len(x.calls) : x.calls[j].c = "status" => "Push" \notin DOMAIN FromSnap(x.calls[j].h)

(* headers at the moment the status is sent *)
Applied(q, w) == LET mine == HDel(q.h, "Push") IN mine @@ FromSnap(w.pre)
NoBodyHere(q, w) == w.wrap /\ NoBody(q.code, w.head)
BytesOK(body, n, cs) ==
  IF body.at >= 0 THEN InOrder(body.at, cs)
  ELSE n <= body.n
R04Order(q, w, x) ==
  LET rest == Rest(x.calls)
      ss == Statuses(rest)
      cs == Bodies(rest)
  IN ~ Stopped(w, q) =>
     /\ Len(ss) = 1 /\ ss[1].v = q.code /\ rest[1].c = "status"
     /\ FromSnap(ss[1].h) = Applied(q, w)
     /\ Others(rest) = <<>>
     /\ StopsAtFailure(cs)
     /\ IF q.body.closed THEN SumAcc(cs) = 0 /\ x.e # "nil"
        ELSE IF NoBodyHere(q, w) THEN cs = <<>> ELSE
        /\ BytesOK(q.body, SumAcc(cs), cs)
        /\ q.body.at < 0 => x.raw = SubSeq(q.body.raw, 1, SumAcc(cs))
        /\ SumAcc(cs) <= q.body.f
     /\ ~ q.body.closed /\ x.e = "nil" => q.body.f = q.body.n /\ (NoBodyHere(q, w) \/ SumAcc(cs) = q.body.n)
(* the error: closing is reported (cerr) only if nothing failed before *)
WriteFailed(x) == \E j \in 1..Len(x.calls) : BodyCall(x.calls[j]) /\ x.calls[j].e = "werr"
Failing(q) == q.body.f < q.body.n
R04Error(q, w, x, closeerrs) ==
  IF Stopped(w, q) THEN x.e = "push"
  ELSE IF q.body.closed THEN x.e = "closed"      \* served before
  ELSE IF WriteFailed(x) /\ Failing(q) THEN x.e \in {"werr", "src"}
  ELSE IF WriteFailed(x) THEN x.e = "werr"
  ELSE IF Failing(q) THEN x.e = "src"
  ELSE x.e \in closeerrs
(* afterwards the body is closed *)
R04Closed(q, x) == x.after = "closed" /\ (~ q.body.closed => x.bcloses \in {-1, 1}) /\ x.used = 0

R03Serve(q, w, x) ==
  (q.auto /\ ~ q.body.closed /\ ~ Stopped(w, q) /\ ~ WriteFailed(x) /\ q.body.f = q.body.n /\ ~ NoBodyHere(q, w)) =>
    HGet(q.h, "Content-Length") = <<ToString(SumAcc(Bodies(x.calls)))>>

CloseSrc(st, body) ==
  IF body.src >= 1 /\ ~ body.closed
  THEN [st EXCEPT !.src[body.src].refs = @ - 1, !.src[body.src].closed = (st.src[body.src].refs = 1)]
  ELSE st
(* what closing the body may return *)
CloseErrs(st, body) ==
  IF body.src >= 1 /\ ~ body.closed /\ st.src[body.src].closer /\ st.src[body.src].cerr /\ st.src[body.src].refs = 1
  THEN {"cerr"} ELSE {"nil"}

Served(st, i) == LET q == st.r[i] IN [CloseSrc(st, q.body) EXCEPT !.r[i].body.closed = TRUE]
Shared(st, q) == q.body.src >= 1 /\ st.src[q.body.src].refs > 1

One(q, w, x, closeerrs, copied) ==
  LET r4 == R04Order(q, w, x) /\ R04Error(q, w, x, closeerrs) /\ R04Closed(q, x)
      r3 == R03Serve(q, w, x)
  IN (IF r4 THEN {} ELSE {"R04"})
     \cup (IF R05Serve(q, w, x) THEN {} ELSE {"R05"})
     \cup (IF r3 THEN {} ELSE {"R03"})
     \cup (IF (~ r4 \/ ~ r3) /\ copied THEN {"R02"} ELSE {})
After(st, ev) ==
  LET wrong == Wrong(st, ev)
      near == {o \in wrong : o \in Touched(ev) \/ o[1] = "s"}
  IN (IF near = {} THEN {} ELSE {"R04"}) \cup (IF wrong = {} THEN {} ELSE {"R02"})

ServeBroken(st, ev) ==
  LET q == st.r[ev.r]
  IN One(q, ev.ws[1], ev.xs[1], CloseErrs(st, q.body), ev.copied) \cup After(Served(st, ev.r), ev)

(* Several Responses served at the same time: which of those that share a   *)
(* source closes it is open.                                                *)
RECURSIVE ServedAll(_, _)
ServedAll(st, rs) == IF rs = <<>> THEN st ELSE ServedAll(Served(st, Head(rs)), Tail(rs))
PServeBroken(st, ev) ==
  LET end == ServedAll(st, ev.rs)
      (* sources that come to be closed, with an error *)
      cs == {s \in DOMAIN end.src : end.src[s].closed /\ ~ st.src[s].closed /\ end.src[s].closer /\ end.src[s].cerr}
      mine(s) == {j \in 1..Len(ev.rs) : st.r[ev.rs[j]].body.src = s}
      errs(j) == IF st.r[ev.rs[j]].body.src \in cs THEN {"nil", "cerr"} ELSE {"nil"}
      (* whoever fails on the way may also be the one whose Close failed *)
      hides(j) == Failing(st.r[ev.rs[j]]) \/ WriteFailed(ev.xs[j]) \/ Stopped(ev.ws[j], st.r[ev.rs[j]])
  IN UNION {One(st.r[ev.rs[j]], ev.ws[j], ev.xs[j], errs(j), TRUE) : j \in 1..Len(ev.rs)}
     \cup (IF \A s \in cs : LET n == Cardinality({j \in mine(s) : ev.xs[j].e = "cerr"})
                            IN n = 1 \/ (n = 0 /\ \E j \in mine(s) : hides(j))
           THEN {} ELSE {"R04"})
     \cup (IF ev.race THEN {"R02"} ELSE {})
     \cup After(end, ev)

RBroken(st, ev) == CASE ev.op = "serve" -> ServeBroken(st, ev)
                     [] ev.op = "pserve" -> PServeBroken(st, ev)
                     [] OTHER -> CallBroken(st, ev)
RNext(st, ev) == CASE ev.op = "serve" -> Served(st, ev.r)
                   [] ev.op = "pserve" -> ServedAll(st, ev.rs)
                   [] OTHER -> Expect(st, ev).st
=============================================================================
