------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Design model of the wrapping Writer: an adversary may make any call do  *)
(* anything; only what WriterCore allows is a step.  The invariants speak  *)
(* about the log of the wrapped writer, without WriterCore's operators.    *)
(***************************************************************************)
EXTENDS WriterCore, TLC

CONSTANTS MaxCalls, Vals
VARIABLES st, log, given, seen2, calls
vars == <<st, log, given, seen2, calls>>

CapsSet == {[fl |-> TRUE, cn |-> TRUE, hj |-> TRUE, rf |-> TRUE, pu |-> TRUE],
            [fl |-> FALSE, cn |-> FALSE, hj |-> FALSE, rf |-> FALSE, pu |-> FALSE]}
Init == /\ \E c \in CapsSet, h \in BOOLEAN : st = W0([caps |-> c, head |-> h])
        /\ log = <<>> /\ given = 0 /\ seen2 = FALSE /\ calls = 0

Z == [c |-> "x", v |-> 0, n |-> 0, acc |-> 0, e |-> "nil", d |-> <<>>, loc |-> -1, s |-> "", same |-> TRUE]
Bytes(n, q) == [i \in 1..n |-> Src(q + i - 1)]
StatusCalls == {[Z EXCEPT !.c = "status", !.v = v] : v \in {0, 200} \cup Vals}
DataCalls == {[Z EXCEPT !.c = "write", !.n = 1, !.acc = a, !.e = e, !.d = Bytes(a, q)] :
                a \in 0..1, e \in {"nil", "werr"}, q \in {0, 1}} \cup {[Z EXCEPT !.c = "write"]}
OtherCalls == {[Z EXCEPT !.c = c, !.s = "u"] : c \in {"flush"}}
(* what the wrapped writer may see during one call *)
Downs == {<<>>} \cup {<<x>> : x \in StatusCalls \cup DataCalls \cup OtherCalls}
         \cup {<<x, y>> : x \in StatusCalls, y \in StatusCalls \cup DataCalls \cup OtherCalls}
         \cup {<<x, y>> : x \in DataCalls, y \in StatusCalls}
         \cup {<<x, y>> : x, y \in {z \in DataCalls : z.acc = 1}}
E0 == [op |-> "x", v |-> 0, k |-> 0, o |-> 0, f |-> -1, n |-> 0, e |-> "nil", s |-> "u", want |-> "nil", same |-> TRUE,
       down |-> <<>>, status |-> 0, bytes |-> 0, saw |-> FALSE]
CallsOf == {[E0 EXCEPT !.op = o, !.v = v] : o \in {"status", "maybe"}, v \in Vals}
           \cup {[E0 EXCEPT !.op = "write", !.k = k] : k \in 0..2}
           \cup {[E0 EXCEPT !.op = "copy", !.k = 1, !.f = f] : f \in {-1, 0}}
           \cup {[E0 EXCEPT !.op = "flush"]}

Step ==
  /\ calls < MaxCalls
  /\ \E c \in CallsOf, d \in Downs, s \in {0, 200} \cup Vals, e \in {"nil", "panic", "werr", "src"} :
       LET ev0 == [c EXCEPT !.down = d, !.status = s, !.e = e]
       IN /\ W01(st, ev0)
          /\ \E b \in 0..2, w \in BOOLEAN, n \in 0..2 :
               LET ev == [ev0 EXCEPT !.bytes = st.bytes + b, !.saw = w, !.n = n]
               IN st' \in WSucc(st, ev)
          /\ log' = log \o d
          /\ seen2' = (seen2 \/ (c.op = "status" /\ c.v \in 100..999 /\ st.status # 0))
          /\ UNCHANGED given
  /\ calls' = calls + 1
Next == Step
Spec == Init /\ [][Next]_vars

(* W01 *)
OneStatus == Cardinality({i \in 1..Len(log) : log[i].c = "status"}) <= 1
StatusFirst == \A i \in 1..Len(log) : (log[i].c = "flush" \/ log[i].acc > 0) =>
                  \E j \in 1..(i - 1) : log[j].c = "status"
StatusTrue == st.status = (IF \E i \in 1..Len(log) : log[i].c = "status"
                           THEN log[CHOOSE i \in 1..Len(log) : log[i].c = "status"].v ELSE 0)
StatusRange == st.status = 0 \/ st.status \in 100..999
(* W02 *)
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE Head(l).acc + Total(Tail(l))
BytesTrue == st.bytes = Total(log)
NoBodySent == (st.head \/ st.status \in {204, 304}) => Total(log) = 0
SawTrue == (seen2 \/ \E i \in 1..Len(log) : log[i].e = "werr") => st.saw
=============================================================================
