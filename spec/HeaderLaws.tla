------------------------------ MODULE HeaderLaws ------------------------------
(***************************************************************************)
(* Sanity of HeaderCore itself, checked exhaustively for short texts: a    *)
(* media type reads back as what was written, in every way of writing it,  *)
(* base64 is injective, has the right length and the right alphabet, and   *)
(* different meanings never read the same.                                 *)
(***************************************************************************)
EXTENDS HeaderGen

VARIABLES what, a, b, u
lv == <<hist, done, what, a, b, u>>

SmallVals == UNION {Seqs(n, {65, 34, 92, 32, 59, 61, 195}) : n \in 0..3}
SmallM == {[type |-> <<84>>, sub |-> <<120>>, ps |-> ps] :
             ps \in {<<>>} \cup {<< <<nm, v>> >> : nm \in {<<98>>, <<81>>}, v \in SmallVals}}
Way == [seps : {[i \in 1..4 |-> s] : s \in OWS}, toks : {[i \in 1..3 |-> x] : x \in BOOLEAN}]
Sums == UNION {Seqs(n, {0, 1, 62, 63, 64, 127, 128, 251, 255}) : n \in 0..4}

W0 == [seps |-> [i \in 1..4 |-> <<>>], toks |-> [i \in 1..3 |-> TRUE]]
M0 == [type |-> <<84>>, sub |-> <<120>>, ps |-> <<>>]
LInit == /\ hist = <<>> /\ done = FALSE
         /\ \/ what = "media" /\ a \in SmallM /\ b \in Way /\ u = <<>>
            \/ what = "sum" /\ a = M0 /\ b = W0 /\ u \in Sums
LNext == UNCHANGED lv
LSpec == LInit /\ [][LNext]_lv

IsM == what = "media"
ReadsBack == IsM => MeansMedia(Rendered(a, b.seps, b.toks), a)
Distinguished == IsM => \A m \in {[a EXCEPT !.type = <<85>>], [a EXCEPT !.sub = <<42>>],
                                   [a EXCEPT !.ps = Append(@, << <<122>>, <<65>> >>)],
                                   [a EXCEPT !.ps = IF @ = <<>> THEN << << <<98>>, <<>> >> >> ELSE << <<@[1][1], Append(@[1][2], 65)>> >>]} :
                           ~ MeansMedia(Rendered(a, b.seps, b.toks), m)
InvalidRefused == \A t \in Invalid \ {<<97, 47, 98, 59, 120, 61, 49, 59, 120, 61, 50>>} : ~ ReadMedia(t).ok
Alphabet == {B64(n) : n \in 0..63}
Base64Shape == ~ IsM => LET e == Base64(u)
                        IN /\ Len(e) = 4 * ((Len(u) + 2) \div 3)
                           /\ Cardinality(Alphabet) = 64
                           /\ \A i \in 1..Len(e) : e[i] \in Alphabet \cup {61}
(* decoding what was encoded *)
UnB64(c) == CHOOSE n \in 0..63 : B64(n) = c
Decode(e) == LET bits(i) == IF e[i] = 61 THEN 0 ELSE UnB64(e[i])
                 pad == Cardinality({i \in 1..Len(e) : e[i] = 61})
                 byte(j) == LET g == 4 * ((j - 1) \div 3)
                            IN CASE (j - 1) % 3 = 0 -> bits(g + 1) * 4 + (bits(g + 2) \div 16)
                                 [] (j - 1) % 3 = 1 -> (bits(g + 2) % 16) * 16 + (bits(g + 3) \div 4)
                                 [] OTHER -> (bits(g + 3) % 4) * 64 + bits(g + 4)
             IN [j \in 1..(3 * (Len(e) \div 4) - pad) |-> byte(j)]
Base64Back == ~ IsM => Decode(Base64(u)) = u
=============================================================================
