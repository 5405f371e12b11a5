------------------------------- MODULE E2ECore -------------------------------
(***************************************************************************)
(* What a client at the other end of a real connection must see (R03, H03).*)
(*                                                                         *)
(* q: how the server was told to answer: proto "1.0" "1.1" "1.1c" "h2",    *)
(*   method m, via "adaptor" "raw" "wrapped" (Serve on the server's own    *)
(*   ResponseWriter, or on a wrapping Writer), code, body x (kind, n, pre: *)
(*   bytes read before Build), fail "none" "err" "panic" (the source fails *)
(*   or panics after f bytes), hp (the handler itself panics).             *)
(* o: what the client saw: req (request error), status, cl (announced      *)
(*   length, -1 none), n bytes of body with d / loc, err (how the body     *)
(*   ended), hdr (names of headers seen).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BodyCore

Opaque(q)   == q.x.kind \in {"json", "pretty", "redirect", "error"}
Known(q)    == q.x.kind # "stream"
Avail(q)    == q.x.n - q.x.pre
Bodyless(q) == q.m = "HEAD" \/ q.code \in {204, 304}
Fails(q)    == q.fail # "none"
Status(q)   == IF q.hp THEN 500 ELSE q.code

Bytes(q, o) == IF o.n <= 8 THEN /\ Len(o.d) = o.n
                                /\ \A i \in 1..o.n : o.d[i] = Src(q.x.pre + i - 1)
                           ELSE o.loc = q.x.pre

(* The client holds a response that looks complete ... *)
LooksComplete(o) == o.req = "nil" /\ o.err = "nil" /\ (o.cl < 0 \/ o.n = o.cl \/ o.head)
(* ... and is. *)
(* (A 204 or 304 that comes with a body, hence a Content-Length, is an      *)
(* error of the handler; HTTP/2 clients may complain about it.)             *)
Complete(q, o) ==
  /\ o.req = "nil" /\ o.status = Status(q)
  /\ o.err = "nil" \/ (q.code \in {204, 304} /\ o.err = "err" /\ q.proto = "h2" /\ ~ q.hp)
  /\ IF q.hp THEN o.n = 0
     ELSE IF Bodyless(q) THEN o.n = 0 /\ (q.m = "HEAD" /\ Known(q) /\ q.code \notin {204, 304} /\ ~ Opaque(q)
                                            => o.cl = Avail(q))
     ELSE IF Opaque(q) THEN o.n > 0 /\ o.cl = o.n /\ o.text
     ELSE /\ o.n = Avail(q) /\ Bytes(q, o)
          /\ o.cl \in (IF Known(q) THEN {Avail(q)} ELSE {-1, Avail(q)})

(* A response whose body fails part-way: a true prefix, and not complete.   *)
Prefix(q, o) == o.req = "nil" => /\ o.status = Status(q)
                                 /\ o.n <= q.x.f - q.x.pre
                                 /\ Bytes(q, o)
Cut(q, o) == Prefix(q, o) /\ ~ LooksComplete(o)

(* The failure was met while the body was read before Build, so that the    *)
(* announced length ends there.                                             *)
FoundEarly(q, o) == q.fail = "err" /\ q.x.pre > 0 /\ o.cl = q.x.f - q.x.pre
Push(o)  == \E i \in DOMAIN o.hdr : o.hdr[i] = "Push"
Broken(q, o) ==
  IF Fails(q) /\ ~ Bodyless(q) /\ ~ q.hp
  THEN IF Cut(q, o) THEN {}
       ELSE {"H03"} \cup IF Prefix(q, o) /\ FoundEarly(q, o) THEN {"cut_found_early"}
                         ELSE IF Prefix(q, o) /\ ~ Known(q)
                         THEN {CASE q.proto = "1.0" -> "cut_unknown_http10"
                                 [] q.proto = "h2"  -> "cut_unknown_http2"
                                 [] OTHER           -> "cut_unknown_http11"}
                         ELSE {}
  ELSE IF Fails(q) /\ ~ q.hp
  THEN (IF o.req = "nil" => o.status = Status(q) /\ o.n = 0 THEN {} ELSE {"H03", "R03"})
  ELSE (IF Complete(q, o) THEN {} ELSE {"R03", "H03"}) \cup (IF Push(o) THEN {"R05"} ELSE {})
=============================================================================
