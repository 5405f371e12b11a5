---------------------------- MODULE ResponseImpl ----------------------------
(***************************************************************************)
(* Design model of R01/R02: header maps and value lists as they lie in     *)
(* memory (maps holding slices of arrays with spare capacity), against     *)
(* plain values.  Whatever is called in whatever order, every Builder,     *)
(* every unserved Response and the caller's map must show the value that   *)
(* value semantics gives.  One header name; Design selects the             *)
(* implementation or a deliberate mistake in it.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Design,   \* code | shallowCopy | shareMap | shallowWith | keepWith | noReset | serveShare
          MaxOps, Vals, Cap

VARIABLES arr,    \* array -> sequence of Cap cells
          map,    \* header map -> the slice under the one name: [a, n]; a = 0: absent
          ref,    \* object -> its map (0: nil)
          val,    \* object -> what it should show
          open,   \* objects that exist
          cnt
vars == <<arr, map, ref, val, open, cnt>>
Objs == {"m", "b1", "b2", "r1", "r2", "w"}
Nil == [a |-> 0, n |-> 0]
Init == /\ arr = <<>> /\ map = << Nil, Nil >>
        /\ ref = [o \in Objs |-> IF o = "m" THEN 1 ELSE IF o = "w" THEN 2 ELSE 0]
        /\ val = [o \in Objs |-> <<>>] /\ open = {"m", "b1", "w"} /\ cnt = 0

Slice(mp, i) == IF i = 0 THEN Nil ELSE mp[i]
Content(ar, s) == IF s.a = 0 THEN <<>> ELSE SubSeq(ar[s.a], 1, s.n)
Shows(o) == Content(arr, Slice(map, ref[o]))
(* an operation's effect: new arrays, maps, references; composed as records *)
Now == [arr |-> arr, map |-> map, ref |-> ref]
Alloc(h, seq) == [h EXCEPT !.arr = Append(@, [i \in 1..Cap |-> IF i <= Len(seq) THEN seq[i] ELSE 0])]
NewMap(h, s) == [h EXCEPT !.map = Append(@, s)]
Last(xs) == Len(xs)
Ensure(h, o) == IF h.ref[o] # 0 THEN h ELSE LET g == NewMap(h, Nil) IN [g EXCEPT !.ref[o] = Last(g.map)]
Put(h, o, seq) == LET g == Alloc(Ensure(h, o), seq) IN [g EXCEPT !.map[g.ref[o]] = [a |-> Last(g.arr), n |-> Len(seq)]]
App(h, o, v) == LET g == Ensure(h, o) s == g.map[g.ref[o]]
                IN IF s.a # 0 /\ s.n < Cap
                   THEN [g EXCEPT !.arr[s.a][s.n + 1] = v, !.map[g.ref[o]].n = s.n + 1]
                   ELSE IF s.a = 0 THEN Put(g, o, <<v>>) ELSE g
Elem(h, o, v) == LET s == Slice(h.map, h.ref[o]) IN IF s.a = 0 THEN h ELSE [h EXCEPT !.arr[s.a][1] = v]
Deep(h, from, to) == LET s == Slice(h.map, h.ref[from])
                     IN IF s.a = 0 THEN [h EXCEPT !.ref[to] = 0]
                        ELSE LET g == Alloc(h, Content(h.arr, s)) k == NewMap(g, [a |-> Last(g.arr), n |-> s.n])
                             IN [k EXCEPT !.ref[to] = Last(k.map)]
Shallow(h, from, to) == LET k == NewMap(h, Slice(h.map, h.ref[from])) IN [k EXCEPT !.ref[to] = Last(k.map)]
Share(h, from, to) == [h EXCEPT !.ref[to] = h.ref[from]]
Into(h, v, o) == arr' = h.arr /\ map' = h.map /\ ref' = h.ref /\ val' = v /\ open' = open \cup o /\ cnt' = cnt + 1

Builders == {"b1", "b2"} \cap open
Responses == {"r1", "r2"} \cap open
Mutable == Builders \cup {"m", "w"}
AbsElem(s, v) == IF s = <<>> THEN s ELSE [s EXCEPT ![1] = v]
Change == \E o \in Mutable, v \in Vals :
            \/ Into(Put(Now, o, <<v>>), [val EXCEPT ![o] = <<v>>], {})
            \/ Len(val[o]) < Cap /\ Into(App(Now, o, v), [val EXCEPT ![o] = Append(@, v)], {})
            \/ Into(Elem(Now, o, v), [val EXCEPT ![o] = AbsElem(@, v)], {})
WithHeaders == \E b \in Builders :
  Into(CASE Design = "shallowWith" -> Shallow(Now, "m", b) [] Design = "keepWith" -> Share(Now, "m", b) [] OTHER -> Deep(Now, "m", b),
       [val EXCEPT ![b] = val["m"]], {})
CopyB == \E b \in Builders : LET c == IF b = "b1" THEN "b2" ELSE "b1" IN
  Into(CASE Design = "shallowCopy" -> Shallow(Now, b, c) [] Design = "shareMap" -> Share(Now, b, c) [] OTHER -> Deep(Now, b, c),
       [val EXCEPT ![c] = val[b]], {c})
Build == \E b \in Builders :
  LET h == Share(Now, b, "r1") IN
  Into(IF Design = "noReset" THEN h ELSE [h EXCEPT !.ref[b] = 0], [val EXCEPT !["r1"] = val[b], ![b] = <<>>], {"r1"})
CopyR == "r1" \in open /\ Into(Share(Now, "r1", "r2"), [val EXCEPT !["r2"] = val["r1"]], {"r2"})
Serve == \E r \in Responses :
  LET s == Slice(map, ref[r]) IN
  IF s.a = 0 THEN UNCHANGED vars
  ELSE IF Design = "serveShare" THEN Into([Now EXCEPT !.map[ref["w"]] = s], [val EXCEPT !["w"] = val[r]], {})
  ELSE Into(LET g == Alloc(Now, Content(arr, s)) IN [g EXCEPT !.map[g.ref["w"]] = [a |-> Last(g.arr), n |-> s.n]],
            [val EXCEPT !["w"] = val[r]], {})
Next == cnt < MaxOps /\ (Change \/ WithHeaders \/ CopyB \/ Build \/ CopyR \/ Serve)
Spec == Init /\ [][Next]_vars
ValueSemantics == \A o \in open : Shows(o) = val[o]
=============================================================================
