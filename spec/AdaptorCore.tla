----------------------------- MODULE AdaptorCore -----------------------------
(***************************************************************************)
(* What the Adaptor (package handler) makes of a request, whatever the     *)
(* handler, the body's source and the ResponseWriter do (H01, H02).        *)
(*                                                                         *)
(* State: the metrics since the history began:                             *)
(*   st.req, st.sent   status -> requests counted, body bytes counted      *)
(*   st.panics, st.n   failures counted, requests handled                  *)
(*                                                                         *)
(* An event is one request, or several at the same time: for each the      *)
(* plan q (what handler, source and writer were told to do) and what was   *)
(* observed o (the calls the writer received, failures that the source     *)
(* produced, whether a panic escaped, times), then the reports OnPanic got *)
(* and the metrics afterwards.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, WriterCore

A0 == [req |-> [x \in {} |-> 0], sent |-> [x \in {} |-> 0], panics |-> 0, n |-> 0]

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN Get(f, k) + v ELSE f[x]]

PushStop(o) == \E j \in 1..Len(o.calls) : o.calls[j].c = "push" /\ o.calls[j].e = "push"
CallPanic(o, kinds) == \E j \in 1..Len(o.calls) : o.calls[j].c \in kinds /\ o.calls[j].e = "panic"
AnyKind == {"status", "write", "readfrom", "push", "flush"}
WriteErr(o) == \E j \in 1..Len(o.calls) : BodyCall(o.calls[j]) /\ o.calls[j].e = "werr"

(* did handling or serving fail? *)
Failed(q, o) == \/ q.h # "ok" \/ q.pre = "sent" \/ PushStop(o) \/ CallPanic(o, AnyKind)
                \/ WriteErr(o) \/ o.errs > 0 \/ o.cerrs > 0 \/ o.bpanic
(* ... before the response's own status was sent? *)
Early(q, o) == q.h # "ok" \/ PushStop(o) \/ CallPanic(o, {"push"})

Sts(o) == Statuses(o.calls)
Code(q, o) == IF q.pre = "sent" THEN q.sent ELSE IF Early(q, o) THEN 500 ELSE q.code

(* ---- H02: containment and reporting ------------------------------------ *)
StatusOK(q, o) ==
  IF q.pre = "sent" THEN Sts(o) = <<>>
  ELSE /\ Len(Sts(o)) = 1 /\ Sts(o)[1].v = Code(q, o)
       /\ \A j \in 1..Len(o.calls) : BodyCall(o.calls[j]) /\ o.calls[j].acc > 0 =>
            \E x \in 1..(j - 1) : o.calls[x].c = "status"
(* what may have been reported for this request: [id, cls] with id = 0 for   *)
(* errors that do not tell which request they belong to                      *)
PanicCls(pv) == CASE pv \in {1, 2, 8} -> "own" [] pv \in {3, 4, 5} -> "wrapped" [] pv = 6 -> "runtime" [] pv = 7 -> "abort"
MayReport(j, q, o, rep) ==
  CASE q.h = "panic" -> rep.cls = PanicCls(q.pv) /\ (q.pv \in {6, 7} \/ rep.id = j)
    [] q.h = "zero" \/ q.pre = "sent" -> TRUE
    [] o.bpanic \/ CallPanic(o, AnyKind) -> rep.cls = PanicCls(q.pv) /\ (q.pv \in {6, 7} \/ rep.id = j)
    [] OTHER -> rep.id = 0 /\
                \/ rep.cls = "push" /\ PushStop(o)
                \/ rep.cls = "werr" /\ WriteErr(o)
                \/ rep.cls = "src" /\ o.errs > 0
                \/ rep.cls = "cerr" /\ o.cerrs > 0 /\ ~ PushStop(o) /\ ~ WriteErr(o) /\ o.errs = 0
Fails(ev) == {j \in 1..Len(ev.qs) : Failed(ev.qs[j], ev.os[j])}
(* the reports are an assignment to the failed requests *)
RECURSIVE Assignable(_, _, _)
Assignable(ev, rest, k) ==
  IF k > Len(ev.reports) THEN rest = {}
  ELSE \E j \in rest : MayReport(j, ev.qs[j], ev.os[j], ev.reports[k]) /\ Assignable(ev, rest \ {j}, k + 1)
ReportsOK(ev) == Len(ev.reports) = Cardinality(Fails(ev)) /\ Assignable(ev, Fails(ev), 1)
H02(ev) == /\ \A j \in 1..Len(ev.qs) : ~ ev.os[j].escaped /\ StatusOK(ev.qs[j], ev.os[j])
           /\ ReportsOK(ev)

(* ---- H01: accounting ----------------------------------------------------- *)
(* status under which the request must be counted: the one sent              *)
Counted(q, o) == IF q.pre = "sent" THEN q.sent
                 ELSE IF Sts(o) = <<>> THEN Code(q, o) ELSE Sts(o)[1].v
Bytes(q, o) == SumAcc(Bodies(o.calls)) + (IF q.pre = "sent" THEN q.before ELSE 0)

RECURSIVE Count(_, _, _)
Count(st, ev, j) ==
  IF j > Len(ev.qs) THEN st
  ELSE LET q == ev.qs[j] o == ev.os[j] c == Counted(q, o)
       IN Count([st EXCEPT !.req = Add(@, c, 1), !.sent = Add(@, c, Bytes(q, o)),
                           !.panics = @ + (IF Failed(q, o) THEN 1 ELSE 0), !.n = @ + 1], ev, j + 1)
AsSet(f) == {<<k, f[k]>> : k \in {x \in DOMAIN f : f[x] # 0}}
ListSet(l) == {<<l[j].c, l[j].v>> : j \in 1..Len(l)}
H01(st, ev) ==
  LET e == Count(st, ev, 1) m == ev.metrics
  IN /\ ListSet(m.req) = AsSet(e.req)
     /\ ListSet(m.sent) = AsSet(e.sent)
     /\ m.panics = e.panics
     /\ m.hlat = e.n /\ m.hrecv = e.n /\ m.hsend = e.n
     /\ m.hsum = m.sum /\ m.rsum = m.hrsum
     /\ {m.latcodes[j] : j \in 1..Len(m.latcodes)} = DOMAIN e.req
     /\ {m.recvcodes[j] : j \in 1..Len(m.recvcodes)} = DOMAIN e.req
     /\ Len(ev.qs) = 1 => m.lat >= ev.os[1].inner - 1 /\ m.lat <= ev.os[1].outer + 1

ABroken(st, ev) == (IF H01(st, ev) THEN {} ELSE {"H01"}) \cup (IF H02(ev) THEN {} ELSE {"H02"})
                   \cup (IF ev.race THEN {"H01", "H02"} ELSE {})
ANext(st, ev) == Count(st, ev, 1)
=============================================================================
