------------------------------ MODULE HeaderCore ------------------------------
(***************************************************************************)
(* The Builder's header helpers: for every argument the field value they   *)
(* write means exactly that argument (R07).                                *)
(*                                                                         *)
(* Texts are sequences of bytes.  A state is the Builder's header map: a   *)
(* function from names to sequences of values.                             *)
(*                                                                         *)
(* An event: op "ctype" "lang" "enc" "etag" "digest" "header" "without";   *)
(* its arguments (t: text as passed; ok: it is a media type, whose meaning *)
(* is m = [type, sub, ps]; weak; algo, sum; k, app); panic: the call       *)
(* panicked; h: the header map afterwards, a sequence of [k, v].           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- characters ----------------------------------------------------------- *)
Upper == 65..90
LowerC(c) == IF c \in Upper THEN c + 32 ELSE c
Lower(t) == [i \in 1..Len(t) |-> LowerC(t[i])]
Blank == {9, 10, 11, 12, 13, 32}
(* RFC 9110 tchar: ! # $ % & ' * + - . ^ _ ` | ~ digits letters *)
TChar == {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126} \cup 48..57 \cup 65..90 \cup 97..122
IsToken(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in TChar

RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) == IF i <= Len(t) /\ t[i] \in {9, 32} THEN SkipBlank(t, i + 1) ELSE i
RECURSIVE TokenEnd(_, _)
TokenEnd(t, i) == IF i <= Len(t) /\ t[i] \in TChar THEN TokenEnd(t, i + 1) ELSE i

Trimmed(t) ==
  LET keep == {j \in 1..Len(t) : t[j] \notin Blank}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE j \in keep : \A x \in keep : j <= x, CHOOSE j \in keep : \A x \in keep : j >= x)

(* ---- reading a media type: type/subtype *( OWS ; OWS name=value ) --------- *)
Bad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
RECURSIVE Quoted(_, _, _)
Quoted(t, i, acc) ==                      \* after the opening quote
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = 34 THEN [ok |-> TRUE, v |-> acc, i |-> i + 1]
  ELSE IF t[i] = 92 THEN (IF i < Len(t) THEN Quoted(t, i + 2, Append(acc, t[i + 1])) ELSE Bad)
  ELSE IF t[i] < 32 /\ t[i] # 9 THEN Bad
  ELSE Quoted(t, i + 1, Append(acc, t[i]))
Value(t, i) ==
  IF i <= Len(t) /\ t[i] = 34 THEN Quoted(t, i + 1, <<>>)
  ELSE LET j == TokenEnd(t, i) IN IF j = i THEN Bad ELSE [ok |-> TRUE, v |-> SubSeq(t, i, j - 1), i |-> j]
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
RECURSIVE Percent(_, _, _)
Percent(t, i, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, v |-> acc, i |-> i]
  ELSE IF t[i] # 37 THEN Percent(t, i + 1, Append(acc, t[i]))
  ELSE IF i + 2 > Len(t) \/ HexVal(t[i + 1]) < 0 \/ HexVal(t[i + 2]) < 0 THEN Bad
  ELSE Percent(t, i + 3, Append(acc, 16 * HexVal(t[i + 1]) + HexVal(t[i + 2])))
(* RFC 8187: name*=utf-8''percent-encoded *)
Utf8Mark == <<117, 116, 102, 45, 56, 39, 39>>
Extended(v) == IF Len(v) >= 7 /\ Lower(SubSeq(v, 1, 7)) = Utf8Mark THEN Percent(v, 8, <<>>) ELSE Bad
RECURSIVE Params(_, _, _)
Params(t, i0, ps) ==
  LET i == SkipBlank(t, i0)
  IN IF i > Len(t) THEN [ok |-> TRUE, ps |-> ps]
     ELSE IF t[i] # 59 THEN [ok |-> FALSE, ps |-> ps]
     ELSE LET a == SkipBlank(t, i + 1)
              b == TokenEnd(t, a)
          IN IF b = a \/ b > Len(t) \/ t[b] # 61 THEN [ok |-> FALSE, ps |-> ps]
             ELSE LET name == Lower(SubSeq(t, a, b - 1))
                      r == Value(t, b + 1)
                  IN IF ~ r.ok THEN [ok |-> FALSE, ps |-> ps]
                     ELSE IF name[Len(name)] = 42
                     THEN LET x == Extended(r.v)
                          IN IF x.ok THEN Params(t, r.i, Append(ps, <<SubSeq(name, 1, Len(name) - 1), x.v>>))
                             ELSE [ok |-> FALSE, ps |-> ps]
                     ELSE Params(t, r.i, Append(ps, <<name, r.v>>))
ReadMedia(t) ==
  LET j == TokenEnd(t, 1)
      k == IF j <= Len(t) /\ t[j] = 47 THEN TokenEnd(t, j + 1) ELSE 0
  IN IF j = 1 \/ k = 0 \/ k = j + 1 THEN [ok |-> FALSE]
     ELSE LET p == Params(t, k, <<>>)
          IN [ok |-> p.ok, type |-> Lower(SubSeq(t, 1, j - 1)), sub |-> Lower(SubSeq(t, j + 1, k - 1)), ps |-> p.ps]
(* m.ps: sequence of <<name, value>>, names distinct *)
Range(s) == {s[i] : i \in 1..Len(s)}
MeansMedia(t, m) ==
  LET r == ReadMedia(t)
  IN /\ r.ok
     /\ r.type = Lower(m.type) /\ r.sub = Lower(m.sub)
     /\ Len(r.ps) = Len(m.ps)
     /\ Range(r.ps) = {<<Lower(m.ps[i][1]), m.ps[i][2]>> : i \in 1..Len(m.ps)}

(* ---- base64 (RFC 4648) ------------------------------------------------------ *)
B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(s) ==
  CASE Len(s) = 0 -> <<>>
    [] Len(s) = 1 -> <<B64(s[1] \div 4), B64((s[1] % 4) * 16), 61, 61>>
    [] Len(s) = 2 -> <<B64(s[1] \div 4), B64((s[1] % 4) * 16 + (s[2] \div 16)), B64((s[2] % 16) * 4), 61>>
    [] OTHER -> <<B64(s[1] \div 4), B64((s[1] % 4) * 16 + (s[2] \div 16)), B64((s[2] % 16) * 4 + (s[3] \div 64)), B64(s[3] % 64)>>
                \o Base64(SubSeq(s, 4, Len(s)))

(* ---- the helpers ------------------------------------------------------------- *)
Put(h, k, vs) == [x \in DOMAIN h \cup {k} |-> IF x = k THEN vs ELSE h[x]]
Del(h, k) == [x \in DOMAIN h \ {k} |-> h[x]]
Get(h, k) == IF k \in DOMAIN h THEN h[k] ELSE <<>>
Shown(ev) == [k \in {ev.h[i].k : i \in 1..Len(ev.h)} |-> (CHOOSE i \in 1..Len(ev.h) : ev.h[i].k = k) ]
HeadersOf(ev) == [k \in DOMAIN Shown(ev) |-> ev.h[Shown(ev)[k]].v]

Quote(t) == <<34>> \o t \o <<34>>
Result(st, ev) ==   \* for all but "ctype"
  CASE ev.op = "lang"    -> Put(st, "Content-Language", <<Trimmed(ev.t)>>)
    [] ev.op = "enc"     -> Put(st, "Content-Encoding", <<Trimmed(ev.t)>>)
    [] ev.op = "etag"    -> Put(st, "Etag", <<(IF ev.weak THEN <<87, 47>> ELSE <<>>) \o Quote(ev.t)>>)
    [] ev.op = "digest"  -> Put(st, "Digest", Append(Get(st, "Digest"), ev.t \o <<61>> \o Base64(ev.sum)))
    [] ev.op = "header"  -> Put(st, ev.k, IF ev.app THEN Append(Get(st, ev.k), ev.t) ELSE <<ev.t>>)
    [] ev.op = "without" -> Del(st, ev.k)

Refused(ev) == CASE ev.op = "ctype" -> ~ ev.ok
                 [] ev.op = "digest" -> ev.t = <<>> \/ ev.sum = <<>>
                 [] OTHER -> FALSE

HSucc(st, ev) ==
  LET now == HeadersOf(ev)
  IN IF Refused(ev) THEN (IF ev.panic /\ now = st THEN {st} ELSE {})
     ELSE IF ev.panic THEN {}
     ELSE IF ev.op = "ctype"
     THEN IF /\ "Content-Type" \in DOMAIN now /\ Len(now["Content-Type"]) = 1
             /\ MeansMedia(now["Content-Type"][1], ev.m)
             /\ Del(now, "Content-Type") = Del(st, "Content-Type")
          THEN {now} ELSE {}
     ELSE IF now = Result(st, ev) THEN {now} ELSE {}
=============================================================================
