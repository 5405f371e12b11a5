----------------------------- MODULE WriterCore -----------------------------
(***************************************************************************)
(* What a wrapping Writer (package response) promises, operation by        *)
(* operation (W01, W02, W03).                                              *)
(*                                                                         *)
(* State:  st.caps    what the wrapped writer offers (fl cn hj rf pu)      *)
(*         st.head    the request was a HEAD request                       *)
(*         st.status  the status sent, 0 while none was                    *)
(*         st.bytes   body bytes accepted downstream                       *)
(*         st.saw     a failure was seen                                   *)
(*                                                                         *)
(* An event is one call: what the caller saw (e, n), the calls the wrapped *)
(* writer received meanwhile (down), and what Status, BytesWritten and     *)
(* SawError report afterwards (status, bytes, saw).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BodyCore

NoBody(status, head) == head \/ status \in {204, 304}
Valid(v) == v \in 100..999

W0(env) == [caps |-> env.caps, head |-> env.head, status |-> 0, bytes |-> 0, saw |-> FALSE]

BodyCall(c) == c.c \in {"write", "readfrom"}
(* Calls whose presence or absence cannot be observed by a client *)
Silent(c) == c.c = "write" /\ c.n = 0
Loud(down) == SelectSeq(down, LAMBDA c : ~ Silent(c))
Statuses(down) == SelectSeq(down, LAMBDA c : c.c = "status")
Bodies(down) == SelectSeq(down, LAMBDA c : BodyCall(c))
Others(down) == SelectSeq(down, LAMBDA c : c.c \notin {"status", "write", "readfrom"})
RECURSIVE SumAcc(_)
SumAcc(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).acc + SumAcc(Tail(cs))
FailedCall(cs) == \E i \in 1..Len(cs) : BodyCall(cs[i]) /\ cs[i].e # "nil"
(* the accepted bytes are the caller's, from position o on, in order *)
RECURSIVE InOrder(_, _)
InOrder(o, cs) == IF cs = <<>> THEN TRUE
                  ELSE DataOK(o, [n |-> Head(cs).acc, d |-> Head(cs).d, loc |-> Head(cs).loc]) /\ InOrder(o + Head(cs).acc, Tail(cs))
(* nothing is forwarded after a failure *)
StopsAtFailure(cs) == \A i \in 1..(Len(cs) - 1) : cs[i].e = "nil"

(* The status line implied by body data or a flush *)
Implied(st, down) ==
  IF st.status # 0 THEN Statuses(down) = <<>>
  ELSE /\ Len(Statuses(down)) = 1 /\ Statuses(down)[1].v = 200
       /\ Len(down) > 0 /\ down[1].c = "status"
Sent(st, down) == IF st.status # 0 \/ Statuses(down) = <<>> THEN st.status ELSE Statuses(down)[1].v

(* Data: ev.k bytes from position ev.o were on offer; a source that fails   *)
(* (ev.f >= 0) has only ev.f of them.                                       *)
Avail(ev) == IF ev.op = "write" \/ ev.f < 0 THEN ev.k ELSE ev.f

(* ---- clauses; each is (label, holds) ------------------------------------ *)
W01Explicit(st, ev) ==
  LET ss == Statuses(ev.down)
  IN IF ~ Valid(ev.v)
     THEN /\ ss = <<>> /\ ev.status = st.status
          /\ ev.e = "panic" \/ (ev.op = "maybe" /\ st.status # 0)
     ELSE IF st.status = 0
     THEN Len(ss) = 1 /\ ss[1].v = ev.v /\ ev.e = "nil" /\ ev.status = ev.v
     ELSE /\ ss = <<>> /\ ev.status = st.status
          /\ ev.e = (IF ev.op = "status" THEN "panic" ELSE "nil")
W01Data(st, ev) ==
  /\ IF Avail(ev) = 0
     THEN Statuses(ev.down) = <<>> \/ Implied(st, ev.down)   \* nothing to send: either
     ELSE Implied(st, ev.down)
  /\ ev.status = Sent(st, ev.down)
  /\ ev.e # "panic"
W01Flush(st, ev) == /\ Implied(st, ev.down)
                    /\ ev.status = Sent(st, ev.down)
                    /\ ev.e # "panic"
W01Other(st, ev) == Statuses(ev.down) = <<>> /\ ev.status = st.status

W01(st, ev) == CASE ev.op \in {"status", "maybe"}           -> W01Explicit(st, ev)
                 [] ev.op \in {"write", "readfrom", "copy"} -> W01Data(st, ev)
                 [] ev.op = "flush"                         -> W01Flush(st, ev)
                 [] OTHER                                   -> W01Other(st, ev)

W02Data(st, ev) ==
  LET cs == Bodies(ev.down)
      nb == NoBody(Sent(st, ev.down), st.head)
      srcfails == ev.op # "write" /\ ev.f >= 0
  IN IF nb
     THEN /\ SumAcc(cs) = 0 /\ \A i \in 1..Len(cs) : cs[i].n = 0
          /\ ev.bytes = st.bytes
          /\ ev.n = Avail(ev)
          /\ ev.e = (IF srcfails THEN "src" ELSE "nil")
          /\ ev.saw = st.saw \/ (srcfails /\ ev.saw)
     ELSE /\ InOrder(ev.o, cs) /\ StopsAtFailure(cs)
          /\ ev.n = SumAcc(cs) /\ ev.n <= Avail(ev)
          /\ Avail(ev) = 0 => \A i \in 1..Len(cs) : cs[i].n = 0
          /\ ev.bytes = st.bytes + ev.n
          /\ ev.e \in {"nil", "werr", "src"}
          /\ (ev.e = "werr") = (\E i \in 1..Len(cs) : cs[i].e = "werr")
          /\ ev.e = "nil" => ev.n = ev.k /\ ~ srcfails
          /\ ev.e = "src" => ev.n = Avail(ev) /\ srcfails
          /\ IF FailedCall(cs) THEN ev.saw ELSE ev.saw = st.saw \/ (srcfails /\ ev.saw)
W02Explicit(st, ev) ==
  /\ ev.bytes = st.bytes
  /\ IF ev.op = "status" /\ Valid(ev.v) /\ st.status # 0 THEN ev.saw
     ELSE IF ev.op = "status" /\ st.status # 0 THEN ev.saw \/ ~ st.saw
     ELSE ev.saw = st.saw
W02(st, ev) == CASE ev.op \in {"write", "readfrom", "copy"} -> W02Data(st, ev)
                 [] ev.op \in {"status", "maybe"}           -> W02Explicit(st, ev)
                 [] OTHER                                   -> ev.bytes = st.bytes /\ ev.saw = st.saw

(* Delegation: the wrapped writer sees this call, once, and nothing else. *)
Only(ev, kind) == Len(Others(ev.down)) = 1 /\ Others(ev.down)[1].c = kind
W03Push(st, ev) ==
  IF st.caps.pu
  THEN /\ Only(ev, "push") /\ Others(ev.down)[1].s = ev.s /\ Others(ev.down)[1].same
       /\ ev.e = ev.want /\ ev.same
  ELSE Others(ev.down) = <<>> /\ ev.e = "notsup"
W03(st, ev) ==
  CASE ev.op = "push"   -> W03Push(st, ev) /\ Bodies(ev.down) = <<>>
    [] ev.op = "flush"  -> /\ Only(ev, "flush")
                           /\ Len(ev.down) > 0 /\ ev.down[Len(ev.down)].c = "flush"
                           /\ Bodies(Loud(ev.down)) = <<>>
    [] ev.op = "hijack" -> Only(ev, "hijack") /\ Bodies(ev.down) = <<>> /\ ev.e = "hijack"
    [] ev.op = "notify" -> Only(ev, "notify") /\ Bodies(ev.down) = <<>> /\ ev.same
    [] ev.op = "header" -> ev.same /\ ev.down = <<>>
    [] ev.op \in {"rewrap", "foreign", "unwrap"} -> ev.same /\ ev.down = <<>>
    [] ev.op \in {"status", "maybe"} -> Others(ev.down) = <<>> /\ Bodies(Loud(ev.down)) = <<>>
    [] OTHER            -> Others(ev.down) = <<>>

(* What the wrapping writer has to offer, and may offer (ev.has). *)
W03Caps(caps, has) ==
  /\ has.fl = caps.fl
  /\ caps.fl /\ caps.cn /\ caps.hj /\ caps.rf => has.cn /\ has.hj /\ has.rf
  /\ has.cn => caps.cn
  /\ has.hj => caps.hj

(* ---- the operations as a transition ------------------------------------- *)
Broken(st, ev) == (IF W01(st, ev) THEN {} ELSE {"W01"})
                  \cup (IF W02(st, ev) THEN {} ELSE {"W02"})
                  \cup (IF W03(st, ev) THEN {} ELSE {"W03"})
WNext(st, ev) == [st EXCEPT !.status = ev.status, !.bytes = ev.bytes, !.saw = ev.saw]
WSucc(st, ev) == IF Broken(st, ev) = {} THEN {WNext(st, ev)} ELSE {}
=============================================================================
