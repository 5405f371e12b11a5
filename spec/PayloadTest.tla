----------------------------- MODULE PayloadTest -----------------------------
(***************************************************************************)
(* Scenarios and trace validation for payload constructors (B13).          *)
(*                                                                         *)
(* A scenario makes Bodies from values one after another and reads them in *)
(* pieces, interleaved; at the end everything has been read.  A trace      *)
(* lists, per Body, all bytes it served.                                   *)
(***************************************************************************)
EXTENDS Payload, TLC, Json, IOUtils

CONSTANTS Mode, Depth, MaxP

Traces == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE_FILE) ELSE <<>>

(* Values *)
Null == [k |-> "null"]
Str(c) == [k |-> "str", cps |-> c]
Num(t) == [k |-> "num", txt |-> t]
Arr(x) == [k |-> "arr", xs |-> x]
Obj(ks, x) == [k |-> "obj", ks |-> ks, xs |-> x]
Strings == {<<>>, <<97>>, <<60, 62, 38>>, <<34>>, <<92>>, <<92, 117, 48, 48, 51, 99>>, <<47>>, <<10>>, <<13, 10>>,
            <<9, 97, 10>>, <<1>>, <<8, 12>>, <<127>>, <<233>>, <<8232, 8233>>, <<128512>>, <<97, 60, 98, 62, 10, 38, 34>>,
            <<32, 32>>, <<123, 91, 44, 58>>, <<65533>>, <<46, 46>> }
Numbers == {<<48>>, <<49, 50>>, <<45, 55>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>,
            <<57, 48, 48, 55, 49, 57, 57, 50, 53, 52, 55, 52, 48, 57, 57, 51>>, <<49, 46, 53>>, <<45, 48, 46, 50, 53>>,
            <<49, 101, 43, 50, 49>> }
Atoms == {Null, [k |-> "bool", v |-> TRUE], [k |-> "bool", v |-> FALSE]} \cup {Str(s) : s \in Strings} \cup {Num(n) : n \in Numbers}
Few == {Null, Str(<<60, 97, 62>>), Str(<<10>>), Num(<<49, 50>>), Arr(<<>>), Obj(<<>>, <<>>)}
Lev1 == {Arr(<<>>), Obj(<<>>, <<>>)} \cup {Arr(<<a>>) : a \in Atoms} \cup {Arr(<<a, b>>) : a, b \in Few}
        \cup {Obj(<<s>>, <<a>>) : s \in Strings, a \in Few}
        \cup {Obj(<< <<98>>, <<97, 38>> >>, <<a, b>>) : a, b \in Few}
Lev2 == {Arr(<<a, b>>) : a \in {Arr(<<>>), Arr(<<Null>>), Obj(<< <<120>> >>, <<Arr(<<Num(<<48>>)>>)>>)}, b \in Few}
        \cup {Obj(<< <<122>>, <<97>>, <<10>> >>, <<a, b, Arr(<<b, Obj(<<>>, <<>>)>>)>>) : a \in Few, b \in {Null, Arr(<<Str(<<38>>), Arr(<<Null>>)>>)}}
Values == Atoms \cup Lev1 \cup Lev2
Rep == {[k |-> "rep", n |-> n] : n \in {300, 5000, 65536, 70001}}

Messages == {[m |-> "string", cps |-> s] : s \in Strings} \cup {[m |-> "int", n |-> n] : n \in {0, 1, 127, 128, 300, 16384, 2147483647}}
            \cup {[m |-> "bytes", bs |-> b] : b \in {<<>>, <<97>>, <<97, 98, 34>>}}
            \cup {[m |-> "duration", n |-> a, nanos |-> b] : a \in {0, 5, 1000}, b \in {0, 7}}
            \cup {[m |-> "list", xs |-> x] : x \in {<<>>, << <<97>> >>, << <<>>, <<60, 10>>, <<128512>> >>}}

Makers == {"json", "pretty", "proto", "text", "text1", "ascii", "bytes", "string", "bad"}
BadValues == {"chan", "func", "nan", "inf", "inside", "proto", "text",
              "partial", "partialtext", "partialtext1", "cycle", "marshaler"}

-----------------------------------------------------------------------------
VARIABLES i, hist, made, pick, fin
vars == <<i, hist, made, pick, fin>>
Init == /\ IF Mode # "trace" THEN i = 0 ELSE i \in 1..Len(Traces)
        /\ hist = <<>> /\ made = 0 /\ pick = "any" /\ fin = FALSE

ChooseOp == /\ Mode = "gen" /\ pick = "any" /\ Len(hist) < Depth
            /\ pick' \in (IF made < MaxP THEN Makers ELSE {}) \cup (IF made > 0 THEN {"read", "write"} ELSE {})
            /\ UNCHANGED <<i, hist, made, fin>>
Make(v) == /\ hist' = Append(hist, [op |-> pick, v |-> v, b |-> made + 1])
           /\ made' = made + 1
Act == /\ Mode = "gen" /\ pick \notin {"any", "done"}
       /\ \/ pick \in {"json", "pretty"} /\ Make(RandomElement(Values \cup Rep))
          \/ pick \in {"proto", "text", "text1", "ascii"} /\ Make(RandomElement(Messages))
          \/ pick \in {"bytes", "string"} /\ Make(Str(RandomElement(Strings)))
          \/ pick = "bad" /\ hist' = Append(hist, [op |-> "bad", v |-> RandomElement(BadValues), b |-> 0]) /\ made' = made
          \/ pick \in {"read", "write"} /\ \E b \in 1..made, k \in {1, 3, 1000} : hist' = Append(hist, [op |-> pick, b |-> b, k |-> k]) /\ made' = made
       /\ pick' = "any"
       /\ UNCHANGED <<i, fin>>
Emit == /\ Mode = "gen" /\ pick = "any" /\ Len(hist) = Depth
        /\ PrintT("SCN " \o ToJson([ops |-> hist]))
        /\ pick' = "done" /\ UNCHANGED <<i, hist, made, fin>>

(* what a Body made by op from v has to have served: x.raw all bytes, or    *)
(* x.runs their run lengths if there were many                              *)
RepOK(op, v, runs) ==
  LET core == << <<34, 1>>, <<97, v.n>>, <<34, 1>> >>
  IN runs \in (IF op = "json" THEN {core, core \o << <<10, 1>> >>} ELSE {core \o << <<13, 1>>, <<10, 1>> >>})
ServedOK(x) ==
  CASE x.op \in {"json", "pretty"} /\ x.v.k = "rep" -> RepOK(x.op, x.v, x.runs)
    [] x.op = "json"   -> JSONOK(x.v, x.raw)
    [] x.op = "pretty" -> PrettyOK(x.v, x.raw)
    [] x.op = "proto"  -> x.raw = ProtoBytes(x.v)
    [] x.op = "text"   -> TextOK(x.v, x.raw)
    [] x.op = "text1"  -> TextOK(x.v, x.raw) /\ \A j \in 1..Len(x.raw) : x.raw[j] # 10
    [] x.op = "ascii"  -> /\ TextOK(x.v, x.raw) /\ \A j \in 1..Len(x.raw) : x.raw[j] < 128
                          /\ \A j \in 2..Len(x.raw) : x.raw[j] = 32 => x.raw[j - 1] # 10
    [] x.op \in {"bytes", "string"} -> x.raw = UTF8(x.v.cps)
    [] x.op = "bad"    -> x.e = "panic"
BodyOK(x) == x.op = "bad" \/ (x.e = "eof" /\ x.len0 = x.n /\ x.caps)
Judge ==
  /\ Mode = "trace" /\ ~ fin
  /\ LET t == Traces[i]
         bad == {j \in 1..Len(t.ev) : ~ (ServedOK(t.ev[j]) /\ BodyOK(t.ev[j]))}
     IN IF bad = {} THEN PrintT(<<"ACCEPT", t.id>>)
        ELSE PrintT(<<"VIOL", t.id, CHOOSE j \in bad : TRUE, {"B13"}>>)
  /\ fin' = TRUE /\ UNCHANGED <<i, hist, made, pick>>
Next == ChooseOp \/ Act \/ Emit \/ Judge
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The specification's own encoder, to check that what it accepts is        *)
(* inhabited and unambiguous (model PayloadSelf.cfg).                       *)
RECURSIVE Enc(_), EncSeq(_, _), EncObj(_, _)
EncStr(c) == <<34>> \o UTF8(c) \o <<34>>
Enc(v) == CASE v.k = "null" -> <<110, 117, 108, 108>>
            [] v.k = "bool" -> IF v.v THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
            [] v.k = "num" -> v.txt
            [] v.k = "str" -> EncStr(v.cps)
            [] v.k = "arr" -> <<91>> \o EncSeq(v.xs, 1) \o <<93>>
            [] v.k = "obj" -> <<123>> \o EncObj(v, 1) \o <<125>>
EncSeq(xs, n) == IF n > Len(xs) THEN <<>> ELSE (IF n > 1 THEN <<44>> ELSE <<>>) \o Enc(xs[n]) \o EncSeq(xs, n + 1)
EncObj(v, n) == IF n > Len(v.xs) THEN <<>>
                ELSE (IF n > 1 THEN <<44>> ELSE <<>>) \o EncStr(v.ks[n]) \o <<58>> \o Enc(v.xs[n]) \o EncObj(v, n + 1)
Plain(c) == \A j \in 1..Len(c) : c[j] >= 32 /\ c[j] \notin {34, 92}
RECURSIVE PlainV(_)
PlainV(v) == CASE v.k = "str" -> Plain(v.cps)
               [] v.k = "arr" -> \A j \in 1..Len(v.xs) : PlainV(v.xs[j])
               [] v.k = "obj" -> \A j \in 1..Len(v.xs) : PlainV(v.xs[j]) /\ Plain(v.ks[j])
               [] OTHER -> TRUE
SelfTest ==
  LET P == {v \in Values : PlainV(v)}
  IN /\ \A v \in P : JSONOK(v, Enc(v)) /\ ~ JSONOK(v, Enc(v) \o <<32>>)
     /\ \A v \in P : PrettyOK(v, Pretty(Lex(Enc(v), 1, <<>>), 1, 0))
     /\ \A v, w \in P : JSONOK(v, Enc(w)) => Enc(v) = Enc(w)
SelfOK == Mode = "self" => SelfTest
=============================================================================
