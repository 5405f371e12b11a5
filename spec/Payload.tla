------------------------------- MODULE Payload -------------------------------
(***************************************************************************)
(* Payload encodings (B13), as predicates on byte sequences.               *)
(*                                                                         *)
(* Values:  [k |-> "null"]  [k |-> "bool", v]  [k |-> "num", txt]          *)
(*          [k |-> "str", cps]  [k |-> "arr", xs]  [k |-> "obj", ks, xs]   *)
(* (texts are sequences of ASCII codes, cps sequences of code points).     *)
(* JSON bytes are lexed into tokens; the tokens have to denote the value,  *)
(* and the bytes have to be the prescribed layout of exactly those tokens. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Hex4(b, i) == ((Hex(b[i]) * 16 + Hex(b[i + 1])) * 16 + Hex(b[i + 2])) * 16 + Hex(b[i + 3])
Blank(c) == c \in {32, 9, 10, 13}
Punct == {91, 93, 123, 125, 44, 58}       \* [ ] { } , :

(* One code point of a string literal at i: [cp, next]; next = 0: malformed *)
Bad == [cp |-> -1, next |-> 0]
Cont(c) == c \in 128..191
CodePoint(b, i) ==
  LET c == b[i]
      has(n) == i + n <= Len(b)
  IN CASE c = 92 ->
            IF ~ has(1) THEN Bad
            ELSE LET e == b[i + 1]
                 IN CASE e \in {34, 92, 47} -> [cp |-> e, next |-> i + 2]
                      [] e = 110 -> [cp |-> 10, next |-> i + 2]
                      [] e = 114 -> [cp |-> 13, next |-> i + 2]
                      [] e = 116 -> [cp |-> 9, next |-> i + 2]
                      [] e = 98  -> [cp |-> 8, next |-> i + 2]
                      [] e = 102 -> [cp |-> 12, next |-> i + 2]
                      [] e = 117 /\ has(5) /\ \A j \in 2..5 : Hex(b[i + j]) >= 0 ->
                           LET u == Hex4(b, i + 2)
                           IN IF u \in 55296..56319
                              THEN IF has(11) /\ b[i + 6] = 92 /\ b[i + 7] = 117 /\ \A j \in 8..11 : Hex(b[i + j]) >= 0
                                      /\ Hex4(b, i + 8) \in 56320..57343
                                   THEN [cp |-> 65536 + (u - 55296) * 1024 + (Hex4(b, i + 8) - 56320), next |-> i + 12]
                                   ELSE Bad
                              ELSE [cp |-> u, next |-> i + 6]
                      [] OTHER -> Bad
       [] c < 32 -> Bad
       [] c < 128 -> [cp |-> c, next |-> i + 1]
       [] c \in 194..223 /\ has(1) /\ Cont(b[i + 1]) ->
            [cp |-> (c - 192) * 64 + (b[i + 1] - 128), next |-> i + 2]
       [] c \in 224..239 /\ has(2) /\ Cont(b[i + 1]) /\ Cont(b[i + 2]) ->
            [cp |-> ((c - 224) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128), next |-> i + 3]
       [] c \in 240..244 /\ has(3) /\ Cont(b[i + 1]) /\ Cont(b[i + 2]) /\ Cont(b[i + 3]) ->
            [cp |-> (((c - 240) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128)) * 64 + (b[i + 3] - 128), next |-> i + 4]
       [] OTHER -> Bad

RECURSIVE StrLit(_, _, _)
(* b[i] is inside a literal: [cps, next], next behind the closing quote *)
StrLit(b, i, acc) ==
  IF i > Len(b) THEN [cps |-> acc, next |-> 0]
  ELSE IF b[i] = 34 THEN [cps |-> acc, next |-> i + 1]
  ELSE LET p == CodePoint(b, i)
       IN IF p.next = 0 THEN [cps |-> acc, next |-> 0] ELSE StrLit(b, p.next, Append(acc, p.cp))

RECURSIVE WordEnd(_, _)
WordEnd(b, i) == IF i > Len(b) \/ Blank(b[i]) \/ b[i] \in Punct \/ b[i] = 34 THEN i ELSE WordEnd(b, i + 1)

RECURSIVE Lex(_, _, _)
Lex(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF Blank(b[i]) THEN Lex(b, i + 1, acc)
  ELSE IF b[i] \in Punct THEN Lex(b, i + 1, Append(acc, [t |-> "p", raw |-> <<b[i]>>, cps |-> <<>>]))
  ELSE IF b[i] = 34
       THEN LET s == StrLit(b, i + 1, <<>>)
            IN IF s.next = 0 THEN Append(acc, [t |-> "bad", raw |-> <<>>, cps |-> <<>>])
               ELSE Lex(b, s.next, Append(acc, [t |-> "s", raw |-> SubSeq(b, i, s.next - 1), cps |-> s.cps]))
  ELSE LET e == WordEnd(b, i)
       IN Lex(b, e, Append(acc, [t |-> "w", raw |-> SubSeq(b, i, e - 1), cps |-> <<>>]))

Tok(ts, i, c) == i <= Len(ts) /\ ts[i].t = "p" /\ ts[i].raw = <<c>>
Word(ts, i, w) == i <= Len(ts) /\ ts[i].t = "w" /\ ts[i].raw = w

(* Match(v, ts, i): index behind the tokens of v, starting at i; 0 if they  *)
(* are something else.                                                      *)
RECURSIVE Match(_, _, _), MatchArr(_, _, _, _), MatchObj(_, _, _, _, _)
Match(v, ts, i) ==
  CASE i = 0 \/ i > Len(ts) -> 0
    [] v.k = "null" -> IF Word(ts, i, <<110, 117, 108, 108>>) THEN i + 1 ELSE 0
    [] v.k = "bool" -> IF Word(ts, i, IF v.v THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) THEN i + 1 ELSE 0
    [] v.k = "num"  -> IF Word(ts, i, v.txt) THEN i + 1 ELSE 0
    [] v.k = "str"  -> IF ts[i].t = "s" /\ ts[i].cps = v.cps THEN i + 1 ELSE 0
    [] v.k = "arr"  -> IF ~ Tok(ts, i, 91) THEN 0
                       ELSE IF Len(v.xs) = 0 THEN (IF Tok(ts, i + 1, 93) THEN i + 2 ELSE 0)
                       ELSE MatchArr(v, ts, i + 1, 1)
    [] v.k = "obj"  -> IF ~ Tok(ts, i, 123) THEN 0
                       ELSE IF Len(v.xs) = 0 THEN (IF Tok(ts, i + 1, 125) THEN i + 2 ELSE 0)
                       ELSE MatchObj(v, ts, i + 1, 1, {})
MatchArr(v, ts, i, n) ==
  LET j == Match(v.xs[n], ts, i)
  IN IF j = 0 THEN 0
     ELSE IF n = Len(v.xs) THEN (IF Tok(ts, j, 93) THEN j + 1 ELSE 0)
     ELSE IF Tok(ts, j, 44) THEN MatchArr(v, ts, j + 1, n + 1) ELSE 0
(* the members of an object may come in any order *)
MatchObj(v, ts, i, n, seen) ==
  IF i > Len(ts) \/ ts[i].t # "s" \/ ~ Tok(ts, i + 1, 58) THEN 0
  ELSE LET which == {m \in 1..Len(v.ks) : v.ks[m] = ts[i].cps} \ seen
       IN IF which = {} THEN 0
          ELSE LET m == CHOOSE m \in which : TRUE
                   j == Match(v.xs[m], ts, i + 2)
               IN IF j = 0 THEN 0
                  ELSE IF n = Len(v.xs) THEN (IF Tok(ts, j, 125) THEN j + 1 ELSE 0)
                  ELSE IF Tok(ts, j, 44) THEN MatchObj(v, ts, j + 1, n + 1, seen \cup {m}) ELSE 0
Denotes(ts, v) == Match(v, ts, 1) = Len(ts) + 1

(* no HTML escaping: the three characters stand for themselves *)
NoHTML(ts) ==
  \A i \in 1..Len(ts) : ts[i].t = "s" =>
    \A j \in 1..(Len(ts[i].raw) - 5) :
      ~ /\ ts[i].raw[j] = 92 /\ ts[i].raw[j + 1] = 117
        /\ \A x \in 2..5 : Hex(ts[i].raw[j + x]) >= 0
        /\ Hex4(ts[i].raw, j + 2) \in {38, 60, 62}
        /\ (j = 1 \/ ts[i].raw[j - 1] # 92)

(* Layouts *)
RECURSIVE Cat(_, _)
Cat(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].raw \o Cat(ts, i + 1)
Compact(ts) == Cat(ts, 1)
CRLF == <<13, 10>>
Indent(n) == [i \in 1..(2 * n) |-> 32]
Opens(t) == t.t = "p" /\ t.raw[1] \in {91, 123}
Closes(t) == t.t = "p" /\ t.raw[1] \in {93, 125}
RECURSIVE Pretty(_, _, _)
Pretty(ts, i, d) ==
  IF i > Len(ts) THEN CRLF
  ELSE LET t == ts[i]
       IN IF Opens(t)
          THEN IF i < Len(ts) /\ Closes(ts[i + 1]) THEN t.raw \o ts[i + 1].raw \o Pretty(ts, i + 2, d)
               ELSE t.raw \o CRLF \o Indent(d + 1) \o Pretty(ts, i + 1, d + 1)
          ELSE IF Closes(t) THEN CRLF \o Indent(d - 1) \o t.raw \o Pretty(ts, i + 1, d - 1)
          ELSE IF t.t = "p" /\ t.raw[1] = 44 THEN t.raw \o CRLF \o Indent(d) \o Pretty(ts, i + 1, d)
          ELSE IF t.t = "p" THEN t.raw \o <<32>> \o Pretty(ts, i + 1, d)
          ELSE t.raw \o Pretty(ts, i + 1, d)

JSONOK(v, b) ==
  LET ts == Lex(b, 1, <<>>)
  IN Denotes(ts, v) /\ NoHTML(ts) /\ b \in {Compact(ts), Compact(ts) \o <<10>>}
PrettyOK(v, b) ==
  LET ts == Lex(b, 1, <<>>)
  IN Denotes(ts, v) /\ NoHTML(ts) /\ b = Pretty(ts, 1, 0)

-----------------------------------------------------------------------------
(* Protocol buffers, for the messages used: google.protobuf.StringValue,    *)
(* Int32Value, BytesValue, Duration and ListValue of strings.               *)
RECURSIVE UTF8(_)
UTF8(cps) ==
  IF cps = <<>> THEN <<>>
  ELSE LET c == Head(cps)
       IN (CASE c < 128   -> <<c>>
             [] c < 2048  -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER     -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>)
          \o UTF8(Tail(cps))
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Varint(n \div 128)
VarintField(f, n) == IF n = 0 THEN <<>> ELSE <<f * 8>> \o Varint(n)
BytesField(f, s) == IF s = <<>> THEN <<>> ELSE <<f * 8 + 2>> \o Varint(Len(s)) \o s
RECURSIVE ListBody(_)
ListBody(xs) == IF xs = <<>> THEN <<>>
                ELSE LET u == UTF8(Head(xs))
                         inner == <<26>> \o Varint(Len(u)) \o u       \* Value.string_value = 3
                     IN <<10>> \o Varint(Len(inner)) \o inner \o ListBody(Tail(xs))
ProtoBytes(m) ==
  CASE m.m = "string"   -> BytesField(1, UTF8(m.cps))
    [] m.m = "int"      -> VarintField(1, m.n)
    [] m.m = "bytes"    -> BytesField(1, m.bs)
    [] m.m = "duration" -> VarintField(1, m.n) \o VarintField(2, m.nanos)
    [] m.m = "list"     -> ListBody(m.xs)

(* Text form: white space outside literals carries no meaning; which escapes *)
(* a literal uses is left open, so it is decoded.                            *)
RECURSIVE TStrLit(_, _, _)
(* literals of the text form: those of JSON, \xH, \xHH and \UHHHHHHHH *)
TStrLit(b, i, acc) ==
  IF i > Len(b) THEN [cps |-> acc, next |-> 0]
  ELSE IF b[i] = 34 THEN [cps |-> acc, next |-> i + 1]
  ELSE IF b[i] = 92 /\ i + 2 <= Len(b) /\ b[i + 1] = 120 /\ Hex(b[i + 2]) >= 0
       THEN IF i + 3 <= Len(b) /\ Hex(b[i + 3]) >= 0
            THEN TStrLit(b, i + 4, Append(acc, Hex(b[i + 2]) * 16 + Hex(b[i + 3])))
            ELSE TStrLit(b, i + 3, Append(acc, Hex(b[i + 2])))
  ELSE IF b[i] = 92 /\ i + 9 <= Len(b) /\ b[i + 1] = 85 /\ \A j \in 2..9 : Hex(b[i + j]) >= 0
       THEN TStrLit(b, i + 10, Append(acc, Hex4(b, i + 2) * 65536 + Hex4(b, i + 6)))
  ELSE LET p == CodePoint(b, i)
       IN IF p.next = 0 THEN [cps |-> acc, next |-> 0] ELSE TStrLit(b, p.next, Append(acc, p.cp))
RECURSIVE TLex(_, _, _)
TWord(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {95, 45, 46}
RECURSIVE TWordEnd(_, _)
TWordEnd(b, i) == IF i > Len(b) \/ ~ TWord(b[i]) THEN i ELSE TWordEnd(b, i + 1)
TLex(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF Blank(b[i]) THEN TLex(b, i + 1, acc)
  ELSE IF b[i] = 34
       THEN LET s == TStrLit(b, i + 1, <<>>)
            IN IF s.next = 0 THEN Append(acc, <<0>>) ELSE TLex(b, s.next, Append(acc, <<34>> \o UTF8(s.cps)))
  ELSE IF TWord(b[i]) THEN LET e == TWordEnd(b, i) IN TLex(b, e, Append(acc, SubSeq(b, i, e - 1)))
  ELSE TLex(b, i + 1, Append(acc, <<b[i]>>))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
value == <<118, 97, 108, 117, 101>>
values == value \o <<115>>
stringvalue == <<115, 116, 114, 105, 110, 103, 95>> \o value
seconds == <<115, 101, 99, 111, 110, 100, 115>>
nanos == <<110, 97, 110, 111, 115>>
colon == <<58>>
Fld(name, tok, zero) == IF zero THEN <<>> ELSE <<name, colon, tok>>
RECURSIVE ListText(_)
ListText(xs) == IF xs = <<>> THEN <<>>
                ELSE <<values, colon, <<123>>, stringvalue, colon, <<34>> \o UTF8(Head(xs)), <<125>> >> \o ListText(Tail(xs))
TextTokens(m) ==
  CASE m.m = "string"   -> Fld(value, <<34>> \o UTF8(m.cps), m.cps = <<>>)
    [] m.m = "int"      -> Fld(value, Digits(m.n), m.n = 0)
    [] m.m = "bytes"    -> Fld(value, <<34>> \o m.bs, m.bs = <<>>)
    [] m.m = "duration" -> Fld(seconds, Digits(m.n), m.n = 0) \o Fld(nanos, Digits(m.nanos), m.nanos = 0)
    [] m.m = "list"     -> ListText(m.xs)
TextOK(m, b) == TLex(b, 1, <<>>) = TextTokens(m)
=============================================================================
