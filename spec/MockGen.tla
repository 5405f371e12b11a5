------------------------------- MODULE MockGen -------------------------------
(***************************************************************************)
(* Scripts and call sequences for the mock reader.                         *)
(* BFS: every script of up to MaxScript expectations taken from a small    *)
(* universe, followed by every call.  Walks: long scripts, mostly followed,*)
(* with an occasional deviation in one argument.                           *)
(***************************************************************************)
EXTENDS MockCore, Json

CONSTANTS MaxScript, MaxCalls, Walk

Offsets == {"0", "1", "-1", "4294967296", "9223372036854775807"}
Whences == {"0", "1", "2", "7"}
Marks   == {"alpha", "beta", "omega7"}
Lens    == 0..3
C0 == [op |-> "close", len |-> 0, off |-> "0", wh |-> "0", mark |-> ""]
Shapes ==
  {C0, [C0 EXCEPT !.op = "stat"]}
  \cup {[C0 EXCEPT !.op = "mark", !.mark = m] : m \in Marks}
  \cup {[C0 EXCEPT !.op = "read", !.len = k] : k \in Lens}
  \cup {[C0 EXCEPT !.op = "readat", !.len = k, !.off = o] : k \in Lens, o \in Offsets}
  \cup {[C0 EXCEPT !.op = "seek", !.off = o, !.wh = w] : o \in Offsets, w \in Whences}
FewShapes ==
  {C0, [C0 EXCEPT !.op = "stat"], [C0 EXCEPT !.op = "mark", !.mark = "alpha"],
   [C0 EXCEPT !.op = "mark", !.mark = "beta"],
   [C0 EXCEPT !.op = "read"], [C0 EXCEPT !.op = "read", !.len = 2], [C0 EXCEPT !.op = "read", !.len = 3],
   [C0 EXCEPT !.op = "readat", !.len = 2], [C0 EXCEPT !.op = "readat", !.len = 2, !.off = "1"],
   [C0 EXCEPT !.op = "readat", !.len = 1],
   [C0 EXCEPT !.op = "seek"], [C0 EXCEPT !.op = "seek", !.wh = "2"],
   [C0 EXCEPT !.op = "seek", !.off = "-1", !.wh = "1"]}

(* what expectation number i of shape c yields *)
Full(c, i, n, pos, fi, err) ==
  [op |-> c.op, len |-> c.len, off |-> c.off, wh |-> c.wh, mark |-> c.mark,
   n |-> n, data |-> [j \in 1..c.len |-> (i * 16 + j) % 200], pos |-> pos, fi |-> fi, err |-> err]
Errs(c) == IF c.op = "mark" THEN {"nil"} ELSE {"nil", "eof", "e1"}
Results(c, i) ==
  IF Walk
  THEN {Full(c, i, n, p, f, e) :
          n \in IF c.op \in {"read", "readat"} THEN 0..c.len ELSE {0},
          p \in IF c.op = "seek" THEN Offsets ELSE {"0"},
          f \in IF c.op = "stat" THEN {"nil", "f1", "f2"} ELSE {"nil"},
          e \in Errs(c)}
  ELSE LET v == i + c.len
       IN {Full(c, i, IF c.op \in {"read", "readat"} THEN c.len - (IF c.len > 2 THEN 1 ELSE 0) ELSE 0,
                IF i % 2 = 0 THEN "1" ELSE "-1", IF i % 2 = 0 THEN "f1" ELSE "nil",
                IF c.op = "mark" \/ (v % 3) = 0 THEN "nil" ELSE IF (v % 3) = 1 THEN "eof" ELSE "e1")}

VARIABLES scn, st, hist, phase
vars == <<scn, st, hist, phase>>

Init == /\ \E w \in {"raw", "000", "001", "010", "011", "100", "101", "110", "111"},
              nil \in (IF Walk THEN {FALSE} ELSE BOOLEAN) :
             scn = [nil |-> nil, wrap |-> w, script |-> <<>>]
        /\ st = InitState(scn)
        /\ hist = <<>>
        /\ phase = "script"

AddTo == IF Walk THEN Shapes ELSE FewShapes
Script ==
  /\ phase = "script" /\ ~ scn.nil /\ Len(scn.script) < MaxScript
  /\ IF Walk
     THEN \E c \in {RandomElement(Shapes)} : \E x \in {RandomElement(Results(c, Len(scn.script)))} :
            scn' = [scn EXCEPT !.script = Append(@, x)]
     ELSE \E c \in FewShapes : \E x \in Results(c, Len(scn.script)) :
            scn' = [scn EXCEPT !.script = Append(@, x)]
  /\ UNCHANGED <<st, hist, phase>>
Begin ==
  /\ phase = "script"
  /\ (Walk /\ ~ scn.nil) => Len(scn.script) = MaxScript
  /\ st' = InitState(scn)
  /\ phase' = "calls"
  /\ UNCHANGED <<scn, hist>>

(* in BFS, scripts are short and wrappers rotate with them *)
Relevant == Walk \/ scn.wrap = "raw" \/ Len(scn.script) <= 1

Past == st.nil \/ st.at >= Len(scn.script)
Expected == IF Past THEN {} ELSE {c \in Shapes : Matches(Next1(st), c)}
Calls ==
  IF ~ Walk THEN (IF Len(hist) + 1 < MaxCalls /\ Expected # {} THEN Expected \cup FewShapes ELSE FewShapes)
  ELSE CASE Past -> {RandomElement(Shapes)}
         [] OTHER -> {IF RandomElement(1..9) = 1
                      THEN RandomElement({c \in Shapes : ~ Matches(Next1(st), c)
                                                         /\ (RandomElement(1..3) = 1 \/ c.op = Next1(st).op)} \cup {C0})
                      ELSE CHOOSE c \in Expected : TRUE}
Call ==
  /\ phase = "calls" /\ Len(hist) < MaxCalls
  /\ Relevant
  /\ \E c \in Calls :
       /\ hist' = Append(hist, c)
       /\ IF ~ Past /\ Matches(Next1(st), c)
          THEN st' = [st EXCEPT !.at = @ + 1] /\ UNCHANGED phase
          ELSE UNCHANGED st /\ phase' = IF Past THEN "calls" ELSE "over"
  /\ UNCHANGED scn

Out(h) == PrintT("SCN " \o ToJson([nil |-> scn.nil, wrap |-> scn.wrap, script |-> scn.script, calls |-> h]))
Done == phase = "over" \/ (phase = "calls" /\ Len(hist) = MaxCalls)
Finish == Walk /\ Done /\ phase # "done" /\ Out(hist) /\ phase' = "done" /\ UNCHANGED <<scn, st, hist>>

Next == Script \/ Begin \/ Call \/ Finish
Spec == Init /\ [][Next]_vars
Emit == (~ Walk /\ hist' # hist) => Out(hist')
View == <<scn, st, phase, Len(hist)>>
=============================================================================
