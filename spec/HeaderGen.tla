------------------------------ MODULE HeaderGen ------------------------------
(***************************************************************************)
(* Random uses of the header helpers, with their meaning: texts are put    *)
(* together from a meaning, in one of the many ways RFC 9110 allows.       *)
(***************************************************************************)
EXTENDS HeaderCore, Json

CONSTANT Depth

VARIABLES hist, done
vars == <<hist, done>>

R(S) == RandomElement(S)
Seqs(n, S) == [1..n -> S]
Letter == 97..122 \cup 65..90
RText(n, S) == [i \in 1..n |-> R(S)]
Types == { <<116, 101, 120, 116>>, <<65, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110>>, <<120, 45, 97>>, <<77>> }
Subs  == { <<104, 116, 109, 108>>, <<106, 115, 111, 110>>, <<118, 110, 100, 46, 120, 43, 74, 83, 79, 78>>, <<42>>, <<112, 45, 49>> }
Names == { <<99, 104, 97, 114, 115, 101, 116>>, <<98>>, <<81>>, <<112, 114, 111, 102, 105, 108, 101>>, <<120, 45, 89>>, <<118, 101, 114, 115, 105, 111, 110>> }

(* values: tokens, quoted ones, with quotes and backslashes, not ASCII, empty *)
Plain == {32, 9, 44, 59, 61, 40, 41, 47, 58, 64, 63, 123} \cup TChar
Chunks == {<<c>> : c \in TChar} \cup {<<34>>, <<92>>, <<32>>, <<59>>, <<61>>, <<44>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<37, 52, 49>>}
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Join(Tail(xs))
RECURSIVE EscapeQ(_)
EscapeQ(t) == IF t = <<>> THEN <<>>
              ELSE (IF Head(t) \in {34, 92} THEN <<92, Head(t)>> ELSE <<Head(t)>>) \o EscapeQ(Tail(t))
(* In input, bytes outside ASCII are written in a quoted string, as they are *)
Written(v, asToken) == IF asToken /\ IsToken(v) THEN v ELSE Quote(EscapeQ(v))

OWS == {<<>>, <<32>>, <<9>>, <<32, 32>>}
Rendered(m, seps, toks) ==
  m.type \o <<47>> \o m.sub
  \o Join([i \in 1..Len(m.ps) |-> seps[i] \o <<59>> \o seps[i + 1] \o m.ps[i][1] \o <<61>> \o Written(m.ps[i][2], toks[i])])
  \o (IF Len(m.ps) > 0 THEN <<>> ELSE seps[1])

E0 == [op |-> "", t |-> <<>>, ok |-> TRUE, m |-> [type |-> <<>>, sub |-> <<>>, ps |-> <<>>], weak |-> FALSE, sum |-> <<>>,
       k |-> "", app |-> FALSE]

T(s) == s
Invalid == { <<>>, <<32>>, <<47>>, <<116, 101, 120, 116, 47>>,                    \* "" " " "/" "text/"
             <<47, 104>>, <<97, 32, 98, 47, 99>>, <<97, 47, 98, 32, 99>>,          \* "/h" "a b/c" "a/b c"
             <<97, 47, 98, 59, 61, 120>>, <<97, 47, 98, 59, 120>>,                 \* "a/b;=x" "a/b;x"
             <<97, 47, 98, 59, 120, 61>>, <<97, 47, 98, 59, 120, 61, 34, 121>>,    \* "a/b;x=" a/b;x="y
             <<97, 47, 98, 59, 120, 61, 49, 59, 120, 61, 50>>,                     \* a/b;x=1;x=2
             <<97, 47, 98, 59, 120, 32, 121, 61, 49>>,                             \* "a/b;x y=1"
             <<97, 47, 98, 47, 99>>, <<60, 98, 62>>, <<97, 47, 98, 44, 99, 47, 100>> }  \* a/b/c <b> a/b,c/d

EtagC == {33} \cup 35..126
Pads == {<<>>, <<32>>, <<9, 32>>, <<13, 10>>, <<32, 32, 10>>}
RSum(n) == [i \in 1..n |-> R(0..255)]
(* text with no blanks at either end *)
Word(n) == IF n = 0 THEN <<>> ELSE <<R(Letter)>> \o RText(n, TChar \cup {32, 44, 59}) \o <<R(Letter)>>

NameLists == {f \in Seqs(3, Names) : \A i, j \in 1..3 : i # j => f[i] # f[j]}
(* with a parameter: TLC evaluates constant definitions only once            *)
RMedia(n, names) ==
     [type |-> R(Types), sub |-> R(Subs),
      ps |-> [i \in 1..n |-> <<names[i], Join([j \in 1..R(0..5) |-> R(Chunks)])>>]]

(* (values drawn once: see the pitfalls of RandomElement)                    *)
Ctype == \E n \in {R({<<0, 1>>, <<0, 2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>})[1]} : \E names \in {R(NameLists)} : \E m \in {RMedia(n, names)} : \E seps \in {[i \in 1..4 |-> R(OWS)]} : \E toks \in {[i \in 1..3 |-> R(BOOLEAN)]} :
           hist' = Append(hist, [E0 EXCEPT !.op = "ctype", !.m = m, !.t = Rendered(m, seps, toks)])
BadCtype == \E t \in {R(Invalid)} : hist' = Append(hist, [E0 EXCEPT !.op = "ctype", !.ok = FALSE, !.t = t])
Lang == \E t \in {R(Pads) \o Word(R(0..6)) \o R(Pads)} : \E o \in {R({"lang", "enc"})} :
          hist' = Append(hist, [E0 EXCEPT !.op = o, !.t = t])
Etag == \E t \in {RText(R(0..12), EtagC)} : \E w \in {R(BOOLEAN)} :
          hist' = Append(hist, [E0 EXCEPT !.op = "etag", !.t = t, !.weak = w])
Digest == \E a \in {R({<<109, 100, 53>>, <<115, 104, 97, 45, 50, 53, 54>>, <<117, 110, 105, 120, 115, 117, 109>>, <<>>})} :
          \E s \in {RSum(R({0, 1, 2, 3, 4, 5, 16, 20, 32, 64}))} :
            hist' = Append(hist, [E0 EXCEPT !.op = "digest", !.t = a, !.sum = s])
Header == \E k \in {R({"X-A", "Content-Type", "Etag", "Digest", "Content-Language"})} : \E t \in {Word(R(0..4))} : \E a \in {R(BOOLEAN)} :
            hist' = Append(hist, [E0 EXCEPT !.op = "header", !.k = k, !.t = t, !.app = a])
Without == \E k \in {R({"X-A", "Content-Type", "Etag", "Digest", "Content-Language", "Content-Encoding"})} :
             hist' = Append(hist, [E0 EXCEPT !.op = "without", !.k = k])

Init == hist = <<>> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth /\ done = FALSE
           /\ \E c \in {R(1..10)} :
                CASE c \in 1..3 -> Ctype [] c = 4 -> BadCtype [] c = 5 -> Lang [] c = 6 -> Etag
                  [] c \in 7..8 -> Digest [] c = 9 -> Header [] OTHER -> Without
           /\ UNCHANGED done
        \/ /\ Len(hist) = Depth /\ ~ done
           /\ PrintT("SCN " \o ToJson([ops |-> hist]))
           /\ done' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
