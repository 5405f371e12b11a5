------------------------------- MODULE E2EGen -------------------------------
(***************************************************************************)
(* Plans: sequences of requests over one connection, requests made at the  *)
(* same time, and requests answered with copies of one Response.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Failures
VARIABLES hist, how, done
vars == <<hist, how, done>>
R(S) == RandomElement(S)
Times(f) == R(UNION {{<<x, i>> : i \in 1..f[x]} : x \in DOMAIN f})[1]

Sizes == {0, 1, 5, 2047, 2048, 2049, 4097, 70000, 150000}
FailKinds == {"stream", "known", "seek", "at", "custom"}
Kinds == IF Failures THEN FailKinds
         ELSE FailKinds \cup {"bytes", "empty", "file", "short", "json", "pretty", "redirect", "error"}
Cut(n, pre) == {f \in {pre, pre + 1, pre + 3, pre + 2048, pre + 2049, pre + 65536, n - 1, n} : f >= pre /\ f <= n}
Body(k, n, pre, chunk, fail) ==
  [kind |-> k, n |-> IF k = "empty" THEN 0 ELSE n,
   pre |-> IF k \in {"empty", "json", "pretty", "redirect", "error"} THEN 0 ELSE pre,
   f |-> IF fail = "none" THEN -1 ELSE R(Cut(IF k = "stream" THEN n ELSE n - 1, pre)),
   known |-> k # "stream", closer |-> TRUE, cerr |-> FALSE, chunk |-> chunk, base |-> 0, eofw |-> R(BOOLEAN)]
Plan(proto, k, n, pre, fail) ==
  [proto |-> proto, m |-> IF Failures THEN Times([GET |-> 9, HEAD |-> 1]) ELSE Times([GET |-> 4, HEAD |-> 1, POST |-> 1]),
   via |-> IF fail # "none" THEN "adaptor" ELSE R({"adaptor", "raw", "wrapped"}),
   code |-> R({<<200, i>> : i \in 1..4} \cup {<<404, 1>>, <<500, 1>>, <<204, 1>>, <<304, 1>>, <<201, 1>>})[1],
   x |-> Body(k, n, pre, IF n > 3000 THEN R({0, 1000, 4096, 30000}) ELSE R({0, 1, 7}), fail),
   fail |-> fail, hp |-> FALSE, push |-> R(1..4) = 1, slow |-> R(1..12) = 1]
Protos == {<<"1.0", 1>>, <<"1.1", 1>>, <<"1.1", 2>>, <<"1.1c", 1>>, <<"h2", 1>>, <<"h2", 2>>}
Init == /\ hist = <<>> /\ done = FALSE
        /\ how \in {"sequence", "parallel", "shared"}
Add ==
  /\ Len(hist) < Depth /\ ~ done
  /\ \E proto \in {IF how = "sequence" /\ hist # <<>> THEN Head(hist).proto ELSE R(Protos)[1]},
        k \in {R(Kinds)}, n \in {R(IF Failures THEN Sizes \ {0} ELSE Sizes)},
        fail \in {IF Failures THEN R({"err", "panic"}) ELSE "none"} :
       \E pre \in {IF n > 1 /\ R(1..3) = 1 THEN R({1, n - 1}) ELSE 0} :
       \E p \in {Plan(proto, k, n, pre, fail)} :
         hist' = Append(hist,
           IF how = "shared" /\ hist # <<>>
           THEN [p EXCEPT !.x = Head(hist).x, !.code = Head(hist).code, !.fail = Head(hist).fail,
                          !.via = IF Head(hist).fail = "none" THEN @ ELSE "adaptor", !.push = Head(hist).push]
           ELSE IF ~ Failures /\ R(1..15) = 1 THEN [p EXCEPT !.hp = TRUE, !.via = "adaptor"] ELSE p)
  /\ UNCHANGED <<how, done>>
Finish == /\ Len(hist) = Depth /\ ~ done
          /\ PrintT("SCN " \o ToJson([how |-> how, qs |-> hist]))
          /\ done' = TRUE /\ UNCHANGED <<hist, how>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
