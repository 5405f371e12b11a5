------------------------------- MODULE Adaptor -------------------------------
(***************************************************************************)
(* Design model of the Adaptor: several requests at the same time, each    *)
(* going through handler, response and the deferred accounting, step by    *)
(* step and interleaved in every order.  When all of them are done, the    *)
(* calls, reports and metrics are put together as one event and judged by  *)
(* AdaptorCore, the specification recorded traces are judged by.           *)
(*                                                                         *)
(* Design = "code" is the order /repo uses; the other values are wrong     *)
(* designs, which must be refuted:                                         *)
(*   labelBeforeStatus  the code label is taken before the 500 is sent     *)
(*   doubleStatus       a failure sends its 500 even after a status        *)
(*   sharedLabel        the label lives in a variable all requests share   *)
(*   quietLate          no report once a status was sent                   *)
(*   reportTwice        both the recovery and the accounting report        *)
(*   plannedCode        counted under the status the response was to have  *)
(*   plannedBytes       counted with the bytes the body was to have        *)
(*   lostUpdate         counters are read and written in two steps         *)
(*   noRecover          an error from Serve escapes                        *)
(*   okOnly             only requests that succeed are counted             *)
(***************************************************************************)
EXTENDS AdaptorCore

CONSTANTS Design, N

Base == [m |-> "GET", h |-> "ok", pv |-> 1, code |-> 200, size |-> 2, pre |-> "none", sent |-> 0, before |-> 0,
         werr |-> FALSE, serr |-> FALSE, pon |-> "none", push |-> "none"]
Plans == {Base,
          [Base EXCEPT !.code = 204, !.size = 0],
          [Base EXCEPT !.code = 404, !.werr = TRUE],
          [Base EXCEPT !.serr = TRUE],
          [Base EXCEPT !.h = "panic"],
          [Base EXCEPT !.h = "zero"],
          [Base EXCEPT !.pon = "status"],
          [Base EXCEPT !.pon = "write", !.code = 404],
          [Base EXCEPT !.push = "push"],
          [Base EXCEPT !.push = "notsup"],
          [Base EXCEPT !.pre = "sent", !.sent = 404, !.before = 3]}
P == 1..N

VARIABLES plan, pc, status, bytes, calls, exc, label, shared, tmp,
          req, sent, panics, hist, reports, escaped
vars == <<plan, pc, status, bytes, calls, exc, label, shared, tmp, req, sent, panics, hist, reports, escaped>>

None == [id |-> -1, cls |-> "none"]
Call(c, v, n, acc, e) == [c |-> c, v |-> v, n |-> n, acc |-> acc, e |-> e]
Init == /\ plan \in [P -> Plans]
        /\ pc = [j \in P |-> "handle"]
        /\ status = [j \in P |-> IF plan[j].pre = "sent" THEN plan[j].sent ELSE 0]
        /\ bytes = [j \in P |-> plan[j].before]
        /\ calls = [j \in P |-> <<>>]
        /\ exc = [j \in P |-> None]
        /\ label = [j \in P |-> 0] /\ shared = 0 /\ tmp = [j \in P |-> [x \in {} |-> 0]]
        /\ req = [x \in {} |-> 0] /\ sent = [x \in {} |-> 0] /\ panics = 0 /\ hist = 0
        /\ reports = <<>> /\ escaped = [j \in P |-> FALSE]

Go(j, to) == pc' = [pc EXCEPT ![j] = to]
Log(j, c) == calls' = [calls EXCEPT ![j] = Append(@, c)]
Fail(j, id, cls) == exc' = [exc EXCEPT ![j] = [id |-> id, cls |-> cls]] /\ Go(j, "recover")
Metrics == <<label, shared, tmp, req, sent, panics, hist, reports, escaped, plan>>

Handle(j) ==
  /\ pc[j] = "handle"
  /\ CASE plan[j].h = "panic" -> Fail(j, j, "own")
       [] plan[j].h = "zero"  -> Fail(j, 0, "runtime")
       [] OTHER               -> Go(j, "push") /\ UNCHANGED exc
  /\ UNCHANGED <<calls, status, bytes>> /\ UNCHANGED Metrics
Push(j) ==
  /\ pc[j] = "push"
  /\ CASE plan[j].push = "push"   -> Log(j, Call("push", 0, 0, 0, "push")) /\ Fail(j, 0, "push")
       [] plan[j].push = "notsup" -> Log(j, Call("push", 0, 0, 0, "notsup")) /\ Go(j, "status") /\ UNCHANGED exc
       [] OTHER                   -> Go(j, "status") /\ UNCHANGED <<exc, calls>>
  /\ UNCHANGED <<status, bytes>> /\ UNCHANGED Metrics
Status(j) ==
  /\ pc[j] = "status"
  /\ IF status[j] # 0 THEN Fail(j, 0, "runtime") /\ UNCHANGED <<calls, status>>
     ELSE /\ status' = [status EXCEPT ![j] = plan[j].code]
          /\ IF plan[j].pon = "status" THEN Log(j, Call("status", plan[j].code, 0, 0, "panic")) /\ Fail(j, j, "own")
             ELSE Log(j, Call("status", plan[j].code, 0, 0, "nil")) /\ Go(j, "body") /\ UNCHANGED exc
  /\ UNCHANGED bytes /\ UNCHANGED Metrics
Body(j) ==
  LET p == plan[j]
      acc == IF p.pon = "write" THEN 0 ELSE IF p.werr \/ p.serr THEN 1 ELSE p.size
      off == IF p.serr THEN 1 ELSE p.size
  IN /\ pc[j] = "body"
     /\ IF p.size = 0 THEN UNCHANGED <<calls, bytes>>
        ELSE /\ Log(j, Call("write", 0, off, acc, IF p.pon = "write" THEN "panic" ELSE IF p.werr THEN "werr" ELSE "nil"))
             /\ bytes' = [bytes EXCEPT ![j] = @ + acc]
     /\ CASE p.pon = "write" -> Fail(j, j, "own")
          [] p.werr          -> Fail(j, 0, "werr")
          [] p.serr          -> Fail(j, 0, "src")
          [] OTHER           -> Go(j, "recover") /\ UNCHANGED exc
     /\ UNCHANGED status /\ UNCHANGED Metrics

(* ---- the deferred part ---------------------------------------------------- *)
Recover(j) ==
  /\ pc[j] = "recover"
  /\ IF Design = "noRecover" /\ exc[j].cls \in {"werr", "src", "push"}
     THEN escaped' = [escaped EXCEPT ![j] = TRUE] ELSE UNCHANGED escaped
  /\ IF status[j] = 0 \/ (Design = "doubleStatus" /\ exc[j] # None)
     THEN status' = [status EXCEPT ![j] = 500] /\ Log(j, Call("status", 500, 0, 0, "nil"))
     ELSE UNCHANGED <<status, calls>>
  /\ label' = [label EXCEPT ![j] = CASE Design = "labelBeforeStatus" -> status[j]
                                     [] Design = "plannedCode" -> plan[j].code
                                     [] OTHER -> status'[j]]
  /\ shared' = label'[j]
  /\ Go(j, IF Design = "okOnly" /\ exc[j] # None THEN "report" ELSE "count")
  /\ UNCHANGED <<bytes, exc, tmp, req, sent, panics, hist, reports, plan>>
L(j) == IF Design = "sharedLabel" THEN shared ELSE label[j]
Count1(j) ==
  /\ pc[j] = "count"
  /\ panics' = panics + (IF exc[j] # None THEN 1 ELSE 0)
  /\ IF Design = "lostUpdate" THEN tmp' = [tmp EXCEPT ![j] = req] /\ Go(j, "store") /\ UNCHANGED req
     ELSE req' = Add(req, L(j), 1) /\ Go(j, "bytes") /\ UNCHANGED tmp
  /\ UNCHANGED <<plan, status, bytes, calls, exc, label, shared, sent, hist, reports, escaped>>
Store(j) ==
  /\ pc[j] = "store" /\ req' = Add(tmp[j], L(j), 1) /\ Go(j, "bytes")
  /\ UNCHANGED <<plan, status, bytes, calls, exc, label, shared, tmp, sent, panics, hist, reports, escaped>>
Bytes1(j) ==
  /\ pc[j] = "bytes"
  /\ sent' = Add(sent, L(j), IF Design = "plannedBytes" THEN plan[j].size ELSE bytes[j])
  /\ hist' = hist + 1
  /\ Go(j, "report")
  /\ UNCHANGED <<plan, status, bytes, calls, exc, label, shared, tmp, req, panics, reports, escaped>>
Quiet(j) == exc[j] = None \/ (Design = "quietLate" /\ \E k \in 1..Len(calls[j]) : calls[j][k].c = "status" /\ calls[j][k].v # 500)
Report(j) ==
  /\ pc[j] = "report"
  /\ reports' = IF Quiet(j) THEN reports
                ELSE IF Design = "reportTwice" THEN reports \o <<exc[j], exc[j]>> ELSE Append(reports, exc[j])
  /\ Go(j, "done")
  /\ UNCHANGED <<plan, status, bytes, calls, exc, label, shared, tmp, req, sent, panics, hist, escaped>>

Next == \E j \in P : Handle(j) \/ Push(j) \/ Status(j) \/ Body(j) \/ Recover(j) \/ Count1(j) \/ Store(j) \/ Bytes1(j) \/ Report(j)
Spec == Init /\ [][Next]_vars

(* ---- the event, and its judgement ----------------------------------------- *)
Quiescent == \A j \in P : pc[j] = "done"
SetToSeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN q : a # b => q[a] # q[b]
AsList(f) == SetToSeqOf({[c |-> k, v |-> f[k]] : k \in {x \in DOMAIN f : f[x] # 0}})
Obs(j) == [calls |-> calls[j], errs |-> IF plan[j].serr THEN 1 ELSE 0, cerrs |-> 0, bpanic |-> FALSE,
           escaped |-> escaped[j], inner |-> 0, outer |-> 0]
Event == [qs |-> [j \in P |-> plan[j]], os |-> [j \in P |-> Obs(j)], reports |-> reports, race |-> FALSE,
          metrics |-> [req |-> AsList(req), sent |-> AsList(sent), panics |-> panics,
                       hlat |-> hist, hrecv |-> hist, hsend |-> hist, hsum |-> 0, sum |-> 0, rsum |-> 0, hrsum |-> 0,
                       latcodes |-> SetToSeqOf(DOMAIN req), recvcodes |-> SetToSeqOf(DOMAIN req), lat |-> 0]]
Judged == Quiescent => ABroken(A0, Event) = {}

(* ---- what holds at every moment ------------------------------------------- *)
RECURSIVE Total(_, _)
Total(f, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE x \in ks : TRUE IN f[k] + Total(f, ks \ {k})
OneStatus == \A j \in P : Len(Statuses(calls[j])) <= 1
NothingEscapes == \A j \in P : ~ escaped[j]
NeverAhead == /\ Total(req, DOMAIN req) <= N /\ hist <= Total(req, DOMAIN req)
              /\ Len(reports) <= panics
              /\ panics <= Total(req, DOMAIN req) + Cardinality({j \in P : pc[j] = "store"})
Sensible == \A k \in DOMAIN req : k \in 100..999
=============================================================================
