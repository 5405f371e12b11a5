----------------------------- MODULE ResponseGen -----------------------------
(***************************************************************************)
(* Scenarios over Builders, Responses and header maps: random walks.  Only *)
(* what is needed to choose sensible calls is tracked.  Phases: "build"    *)
(* walks use all calls; Theme narrows the choice.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, NB, NR, NM, Theme

VARIABLES live, bodied, resp, nsrc, hist, pick
vars == <<live, bodied, resp, nsrc, hist, pick>>
(* resp: slot -> 0 absent, 1 ready to be served, 2 served *)

Init == /\ live = {1} /\ bodied = {} /\ resp = [i \in 1..NR |-> 0] /\ nsrc = 0
        /\ hist = << [op |-> "new", b |-> 1] >> /\ pick = "any"

R(S) == RandomElement(S)
Ready == {i \in 1..NR : resp[i] = 1}
Themes == [all    |-> {"new", "mapmut", "hdrmut", "status", "headers", "header", "without", "ctype", "lang", "enc", "etag", "digest",
                       "body", "nilbody", "payload", "badjson", "err", "gen", "redirect", "errpage", "copy", "build", "rcopy", "serve", "pserve"},
           build  |-> {"status", "header", "without", "ctype", "lang", "etag", "digest", "body", "payload", "badjson", "nilbody", "err", "build", "headers", "hdrmut", "mapmut", "new"},
           alias  |-> {"gen", "redirect", "errpage", "mapmut", "hdrmut", "headers", "header", "without", "copy", "body", "build", "rcopy", "serve", "pserve", "err", "status"},
           serve  |-> {"header", "push", "body", "build", "serve", "status", "rcopy"},
           page   |-> {"redirect", "errpage", "gen", "header", "body", "err", "build", "copy", "serve", "status"},
           push   |-> {"push", "header", "body", "build", "serve", "rcopy", "hdrmut"},
           pushmany |-> {"push", "body", "build", "serve"},
           wide   |-> {"wheader", "without", "copy", "body", "build", "rcopy", "serve", "hdrmut", "headers", "mapmut"},
           par    |-> {"body", "build", "rcopy", "pserve", "header", "status", "copy"}]
(* calls that make up most of a walk *)
Usually == [wide |-> {"wheader"}, push |-> {"push"}, pushmany |-> {"push"}]
Often == IF Theme = "pushmany" THEN 6 ELSE 2
Possible(k) == CASE k \in {"new", "mapmut"} -> TRUE
                 [] k = "build" -> live # {}
                 [] k = "rcopy" -> Ready # {}
                 [] k = "serve" -> Ready # {}
                 [] k = "pserve" -> Cardinality(Ready) >= 2
                 [] OTHER -> live # {}
Choose == /\ pick = "any" /\ Len(hist) < Depth
          /\ \E usual \in {R(1..(Often + 2)) <= Often} :
                pick' \in {k \in (IF usual /\ live # {} /\ Theme \in DOMAIN Usually THEN Usually[Theme] ELSE Themes[Theme]) : Possible(k)}
          /\ UNCHANGED <<live, bodied, resp, nsrc, hist>>

Names == {"X-A", "X-B", "x-a", "X-a"}
Special == {"Content-Type", "content-type", "Content-Length", "CONTENT-LENGTH", "Vary"}
Keys == {"X-A", "X-A", "X-B", "Content-Type", "Vary", "Push"}
Vals == {"v1", "v2", "v3", "", "a, \"b\" ; c=d", "0123456789012345678901234567890123456789012345678901234567890123456789"}
Val(z) == IF R(1..3) = 1 THEN R(Vals) ELSE R({"v1", "v2", "v3"})
(* header names of their own, many of them (theme "wide") *)
Wide == {"W-" \o ToString(i) : i \in 1..40}
Usual == {200, 201, 204, 206, 304, 404, 500, 503, 999}
Codes(z) == IF R(1..3) = 1 THEN {R(200..999)} ELSE Usual
BadCodes == {-1, 0, 1, 99, 100, 199, 1000}
Hows == {"set", "app", "two", "none", "elem", "last", "del"}
Locs == {<<47, 97>>, <<32, 47, 97, 32>>, <<47, 60, 98, 62>>, <<47, 63, 97, 61, 34, 62, 60, 115, 62>>, <<9, 47, 39, 38, 120>>,
         <<47, 38, 97, 109, 112, 59>>, <<104, 116, 116, 112, 58, 47, 47, 120, 47, 10>>}
(* ... and put together at random: letters, markup, references, escapes, blanks, UTF-8 *)
Chunks == {<<47>>, <<97>>, <<90>>, <<63>>, <<61>>, <<38>>, <<59>>, <<60>>, <<62>>, <<34>>, <<39>>, <<35>>, <<37>>, <<37, 50, 48>>, <<37, 50, 70>>,
           <<38, 97, 109, 112, 59>>, <<38, 35, 51, 57, 59>>, <<32>>, <<32, 32>>, <<9>>, <<43>>, <<92>>, <<46, 46>>, <<58>>,
           <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>}
Pads == {<<>>, <<>>, <<32>>, <<9>>, <<10>>, <<13, 10>>, <<32, 9, 32>>, <<11>>, <<12, 32>>}
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Join(Tail(xs))
RandomLoc(z) == R(Pads) \o <<R({47, 104, 35})>> \o Join([i \in 1..(IF R(1..12) = 1 THEN 400 ELSE R(0..12)) |-> R(Chunks)]) \o R({<<>>, <<122>>}) \o R(Pads)
Loc(z) == IF R(1..2) = 1 THEN R(Locs) ELSE RandomLoc(0)
BadLocs == {<<>>, <<32>>, <<10, 9>>, <<12, 11>>}
Kinds == {"bytes", "empty", "stream", "seek", "at", "known", "short", "custom", "nocopy"}
(* TLC evaluates definitions without parameters and variables once, so those  *)
(* that draw at random have one, unused.                                       *)
(* a random element, fixed: LET would choose again at every use *)
BodyOf(k, n, pre) ==
  [kind |-> k, n |-> n, pre |-> pre,
   f |-> IF k \in {"stream", "known", "seek", "at", "custom", "nocopy"} /\ n > pre THEN R({-1, -1, pre, n - 1}) ELSE -1,
   known |-> k # "stream",
   closer |-> k \in {"stream", "known", "short", "seek", "at", "custom", "nocopy"} /\ R(BOOLEAN),
   cerr |-> R({FALSE, FALSE, TRUE}), chunk |-> IF n > 100 THEN R({0, 16384}) ELSE R({0, 0, 1, 7}),
   base |-> 30000 * (nsrc + 1), eofw |-> R(BOOLEAN)]
Body == CHOOSE x \in UNION {UNION {{BodyOf(k, n, pre) : pre \in {R({0, 1} \cap 0..n)}} : n \in {IF k = "empty" THEN 0 ELSE IF R(1..4) = 1 THEN R({R(2..600), 33000, 66000, 70001}) ELSE R({0, 1, 3, 8, 100, 33000})}} : k \in {R(Kinds)}} : TRUE
W(z) == [pu |-> R(BOOLEAN), perr |-> [i \in 1..4 |-> R({"nil", "nil", "notsup", "wrapped", "push"} \ (IF R(1..3) = 1 THEN {} ELSE {"push"}))],
      max |-> R({-1, -1, -1, 0, 1, 5}), wrap |-> R(BOOLEAN), head |-> R({FALSE, FALSE, TRUE}), fancy |-> R(BOOLEAN),
      pre |-> R({<<>>, << [k |-> "X-Pre", v |-> <<"p">>] >>, << [k |-> "X-Pre", v |-> <<"p", "q">>], [k |-> "X-A", v |-> <<"old">>] >>,
                 << [k |-> "Content-Length", v |-> <<"4">>], [k |-> "Vary", v |-> <<"Old">>] >>,
                 << [k |-> "Content-Type", v |-> <<"text/x-old">>], [k |-> "X-B", v |-> <<"old", "older">>], [k |-> "Content-Language", v |-> <<"xx">>] >>}),
      vary |-> R(BOOLEAN)]

Op(o) == hist' = Append(hist, o)
OnB(o, b) == Op(o @@ [b |-> b])
Keep == UNCHANGED <<live, bodied, resp, nsrc>>
Slots == 1..NB
Act ==
  /\ pick \notin {"any", "done"}
  /\ \E b \in {R(live \cup (IF live = {} THEN {0} ELSE {}))} :
     \/ pick = "new" /\ \E c \in {R(Slots)} : OnB([op |-> "new"], c) /\ live' = live \cup {c} /\ bodied' = bodied \ {c} /\ UNCHANGED <<resp, nsrc>>
     \/ pick = "mapmut" /\ Op([op |-> "mapmut", m |-> R(1..NM), how |-> R(Hows), k |-> R(Keys), s |-> Val(0)]) /\ Keep
     \/ pick = "hdrmut" /\ OnB([op |-> "hdrmut", how |-> R(Hows), k |-> R(Keys), s |-> Val(0)], b) /\ Keep
     \/ pick = "status" /\ OnB([op |-> "status", v |-> R(IF R(1..4) = 1 THEN BadCodes ELSE Codes(0))], b) /\ Keep
     \/ pick = "headers" /\ OnB([op |-> "headers", m |-> R(1..NM)], b) /\ Keep
     \/ pick = "header" /\ OnB([op |-> "header", k |-> R(IF R(1..3) = 1 THEN Special ELSE IF R(1..8) = 1 THEN {"", "push", "Push"} ELSE Names),
                                s |-> Val(0), app |-> R(BOOLEAN)], b) /\ Keep
     \/ pick = "wheader" /\ OnB([op |-> "header", k |-> R(Wide), s |-> Val(0), app |-> R(1..4) = 1], b) /\ Keep
     \/ pick = "push" /\ OnB([op |-> "header", k |-> "Push", s |-> R({"/p1", "/p2", "/p3"}), app |-> R(1..(IF Theme = "pushmany" THEN 20 ELSE 3)) # 1], b) /\ Keep
     \/ pick = "without" /\ OnB([op |-> "without", k |-> R(Names \cup Special \cup {""})], b) /\ Keep
     \/ pick = "ctype" /\ OnB([op |-> "ctype", v |-> R(1..7)], b) /\ Keep
     \/ pick \in {"lang", "enc", "etag"} /\ OnB([op |-> pick, v |-> R(1..3)], b) /\ Keep
     \/ pick = "digest" /\ OnB([op |-> "digest", v |-> R(1..4)], b) /\ Keep
     \/ pick = "body" /\ OnB([op |-> "body", x |-> Body], b) /\ bodied' = bodied \cup {b} /\ nsrc' = nsrc + 1 /\ UNCHANGED <<live, resp>>
     \/ pick = "nilbody" /\ OnB([op |-> "nilbody"], b) /\ Keep
     \/ pick = "payload" /\ OnB([op |-> R({"json", "pretty", "proto", "text"})], b) /\ bodied' = bodied \cup {b} /\ UNCHANGED <<live, resp, nsrc>>
     \/ pick = "badjson" /\ OnB([op |-> "badjson", v |-> R(1..2)], b) /\ Keep
     \/ pick = "err" /\ OnB([op |-> "err", v |-> R(0..2)], b) /\ Keep
     \/ pick = "gen" /\ OnB([op |-> "gen", v |-> R(0..2)], b) /\ Keep
     \/ pick = "redirect" /\ \E bad \in {R(1..4) = 1} :
                             \E c \in {IF bad THEN R({299, 400, 200, 302}) ELSE R(300..399)} :
                             \E l \in {IF bad /\ R(BOOLEAN) THEN R(BadLocs) ELSE Loc(0)} :
                                /\ OnB([op |-> "redirect", code |-> c, loc |-> l], b)
                                /\ bodied' = bodied \cup {b} /\ UNCHANGED <<live, resp, nsrc>>
     \/ pick = "errpage" /\ OnB([op |-> "errpage", code |-> R(IF R(1..4) = 1 THEN BadCodes ELSE Codes(0)), v |-> R({0, 1, 2, 2, 1})], b)
                         /\ bodied' = bodied \cup {b} /\ UNCHANGED <<live, resp, nsrc>>
     \/ pick = "copy" /\ \E c \in {R(Slots)} :
                                              /\ OnB([op |-> "copy", c |-> c], b) /\ live' = live \cup {c}
                                              /\ bodied' = IF b \in bodied THEN bodied \cup {c} ELSE bodied \ {c}
                                              /\ UNCHANGED <<resp, nsrc>>
     \/ pick = "build" /\ \E c \in {R(1..NR)} :
                          \E bb \in {IF bodied # {} /\ R(1..6) # 1 THEN R(bodied) ELSE b} :
                             /\ OnB([op |-> "build", c |-> c], bb)
                             /\ bodied' = bodied \ {bb}
                             /\ resp' = IF bb \in bodied THEN [resp EXCEPT ![c] = 1] ELSE resp
                             /\ UNCHANGED <<live, nsrc>>
     \/ pick = "rcopy" /\ \E q \in {R(Ready)}, c \in {R(1..NR)} : Op([op |-> "rcopy", r |-> q, c |-> c]) /\ resp' = [resp EXCEPT ![c] = 1] /\ UNCHANGED <<live, bodied, nsrc>>
     \/ pick = "serve" /\ \E q \in {IF R(1..8) = 1 THEN R({i \in 1..NR : resp[i] > 0}) ELSE R(Ready)} : Op([op |-> "serve", r |-> q, rs |-> <<q>>, ws |-> <<W(0)>>]) /\ resp' = [resp EXCEPT ![q] = 2] /\ UNCHANGED <<live, bodied, nsrc>>
     \/ pick = "pserve" /\ \E S \in {R({s \in SUBSET Ready : Cardinality(s) >= 2})} :
                           \E q \in {R({q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]})} :
                           /\ Op([op |-> "pserve", rs |-> q, ws |-> [i \in 1..Len(q) |-> W(i)]])
                           /\ resp' = [i \in 1..NR |-> IF i \in S THEN 2 ELSE resp[i]] /\ UNCHANGED <<live, bodied, nsrc>>
  /\ pick' = "any"
Finish == /\ pick = "any" /\ Len(hist) = Depth
          /\ PrintT("SCN " \o ToJson([ops |-> hist])) /\ pick' = "done"
          /\ UNCHANGED <<live, bodied, resp, nsrc, hist>>
Next == Choose \/ Act \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
