------------------------------ MODULE AdaptorGen ------------------------------
(* Plans of requests: histories of Depth events of one or several requests.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Par
VARIABLES hist, done
vars == <<hist, done>>
R(S) == RandomElement(S)
Pick(S, n) == R(S \X (1..n))[1]
Init == hist = <<>> /\ done = FALSE

Kinds == {"bytes", "empty", "stream", "known", "seek", "at", "custom", "short"}
BodyOf(k, n) ==
  [kind |-> k, n |-> n, pre |-> 0,
   f |-> IF k \in {"stream", "known", "seek", "at", "custom"} /\ n > 0 THEN R({-1, -1, 0, n - 1}) ELSE -1,
   known |-> k # "stream", closer |-> R(BOOLEAN), cerr |-> R({FALSE, FALSE, FALSE, TRUE}),
   chunk |-> IF n > 100 THEN 16384 ELSE R({0, 1, 7}), base |-> 100 * Len(hist), eofw |-> R(BOOLEAN)]
Bodies0 == UNION {{BodyOf(k, n) : n \in {IF k = "empty" THEN 0 ELSE IF R(1..4) = 1 THEN R(2..5000) ELSE R({0, 1, 5, 100, 33000, 66000})}} : k \in {R(Kinds)}}
Body == CHOOSE x \in Bodies0 : TRUE
Plan ==
  [m |-> R({"GET", "GET1", "HEAD", "POST"}),
   h |-> R({<<"ok", i>> : i \in 1..6} \cup {<<"panic", 1>>, <<"panic", 2>>, <<"zero", 1>>})[1],
   pv |-> R(1..8), code |-> IF R(1..3) = 1 THEN R(200..999) ELSE R({200, 201, 204, 304, 404, 500, 999}),
   x |-> Body, bp |-> R({<<"no", i>> : i \in 1..6} \cup {<<"read", 1>>, <<"close", 1>>})[1],
   push |-> R({<<>>, <<>>, <<"/a">>, <<"/a", "/b">>}),
   perr |-> [i \in 1..2 |-> R({"nil", "notsup", "wrapped", "push"})],
   pu |-> R(BOOLEAN), max |-> R({-1, -1, -1, 0, 3, 40000}), fancy |-> R(BOOLEAN), flush |-> R(BOOLEAN),
   pon |-> R({<<"none", i>> : i \in 1..9} \cup {<<"status", 1>>, <<"write", 1>>, <<"readfrom", 1>>, <<"push", 1>>})[1],
   pre |-> R({<<"none", i>> : i \in 1..5} \cup {<<"wrap", 1>>, <<"sent", 1>>})[1],
   slow |-> R(1..10) = 1]
Add == /\ Len(hist) < Depth /\ ~ done
       /\ hist' = Append(hist, [i \in 1..(IF Par = 1 THEN 1 ELSE R(2..Par)) |-> Plan]) /\ UNCHANGED done
Finish == /\ Len(hist) = Depth /\ ~ done /\ PrintT("SCN " \o ToJson([evs |-> hist])) /\ done' = TRUE /\ UNCHANGED hist
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
