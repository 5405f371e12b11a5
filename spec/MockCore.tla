------------------------------ MODULE MockCore ------------------------------
(***************************************************************************)
(* What the scripted mock reader (internal/mockreader) promises.           *)
(*                                                                         *)
(* st = [nil, wrap, script, at]: a nil *MockReader or not; the wrapper it  *)
(* is used through ("raw" or three digits: stat, seek, readat); the        *)
(* script; the number of expectations met so far.                          *)
(*                                                                         *)
(* An expectation: op "mark" "stat" "read" "readat" "seek" "close"; len    *)
(* (of the buffer), off and wh (as text: they are only ever compared),     *)
(* mark; and what it yields: n, data, pos, fi, err.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fill == 238  \* what the caller's buffer holds before a call

Shape(x) == <<x.op, x.len, x.off, x.wh, x.mark>>
Matches(x, c) == Shape(x) = Shape(c)

Digit(wrap, i) == SubSeq(wrap, i, i)
Offers(wrap, what) ==
  wrap = "raw" \/ Digit(wrap, CASE what = "stat" -> 1 [] what = "seek" -> 2 [] what = "readat" -> 3) = "1"

InitState(scn) == [nil |-> scn.nil, wrap |-> scn.wrap, script |-> scn.script, at |-> 0]

(* the result a matching call yields *)
Yields(x, ev) ==
  /\ ev.out = "ok"
  /\ ev.err = x.err
  /\ CASE x.op \in {"read", "readat"} ->
            /\ ev.n = x.n
            /\ Len(ev.buf) = x.len
            /\ \A i \in 1..x.len : ev.buf[i] = IF i <= x.n THEN x.data[i] ELSE Fill
       [] x.op = "seek" -> ev.pos = x.pos
       [] x.op = "stat" -> ev.fi = x.fi
       [] OTHER -> TRUE

(* the panic of a call that is not the expected one: its error carries the *)
(* position, and its texts name both calls.  ev.exp and ev.act list the    *)
(* words and numbers found in the descriptions of the two calls.           *)
Has(words, w) == \E i \in DOMAIN words : words[i] = w
Name(op) == CASE op = "mark" -> "Mark" [] op = "stat" -> "Stat" [] op = "read" -> "Read"
              [] op = "readat" -> "ReadAt" [] op = "seek" -> "Seek" [] op = "close" -> "Close"
Describes(words, c) ==
  /\ Has(words, Name(c.op))
  /\ c.op \in {"read", "readat"} => Has(words, ToString(c.len))
  /\ c.op \in {"readat", "seek"} => Has(words, c.off)
  /\ c.op = "mark" => Has(words, c.mark)
Complains(st, ev) ==
  /\ ev.out = "panic"
  /\ ev.index = st.at
  /\ Describes(ev.act, ev)
  /\ ev.inmsg  \* the error's text contains position and both descriptions
  /\ IF st.nil \/ st.at = Len(st.script)
     THEN \A op \in {"mark", "stat", "read", "readat", "seek", "close"} : ~ Has(ev.exp, Name(op))
     ELSE Describes(ev.exp, st.script[st.at + 1])
  /\ \A i \in DOMAIN ev.buf : ev.buf[i] = Fill

Next1(st) == st.script[st.at + 1]

CallSucc(st, ev) ==
  IF st.nil
  THEN IF IF ev.op = "mark" THEN ev.out = "ok" ELSE Complains(st, ev) THEN {st} ELSE {}
  ELSE IF st.at < Len(st.script) /\ Matches(Next1(st), ev)
       THEN IF Yields(Next1(st), ev) THEN {[st EXCEPT !.at = @ + 1]} ELSE {}
       ELSE IF Complains(st, ev) THEN {st} ELSE {}

(* which interfaces the wrapper offers *)
CapsSucc(st, ev) ==
  IF /\ \A w \in {"stat", "seek", "readat"} : Has(ev.caps, w) <=> Offers(st.wrap, w)
     /\ Has(ev.caps, "read") /\ Has(ev.caps, "close")
  THEN {st} ELSE {}

(* FileInfo reports exactly what it was given *)
InfoSucc(st, ev) == IF ev.got = ev.given THEN {st} ELSE {}

Succ(st, ev) ==
  CASE ev.op = "caps" -> CapsSucc(st, ev)
    [] ev.op = "info" -> InfoSucc(st, ev)
    [] OTHER          -> CallSucc(st, ev)

(* A call that was refused leaves open what the mock expects next, unless  *)
(* the script had come to its end.                                         *)
Ends(st, ev) == ev.op \notin {"caps", "info"} /\ ev.out = "panic" /\ ~ st.nil /\ st.at < Len(st.script)
=============================================================================
