------------------------------- MODULE BodyEnv -------------------------------
(***************************************************************************)
(* The sources under which Bodies are studied.                             *)
(***************************************************************************)
EXTENDS BodyCore

(* Sources.  Fields beyond those of BodyCore tell the driver how to build   *)
(* the source: capabilities (cs seek, ct stat, ca positioned reads), how    *)
(* the length is made known, largest chunk per source read, end-of-file     *)
(* together with the last bytes, failure transient or permanent, failure    *)
(* together with the bytes before it, reads that return nothing now and     *)
(* then.                                                                    *)
E0 == [kind |-> "bytes", N |-> 0, L |-> 0, F |-> -1, closer |-> FALSE, cerr |-> FALSE,
       ctor |-> "bytes", how |-> "none", cs |-> FALSE, ct |-> FALSE, ca |-> FALSE,
       chunk |-> 0, eofw |-> FALSE, trans |-> FALSE, fw |-> FALSE,
       lazy |-> FALSE]

Mem(ns) == {[E0 EXCEPT !.N = n, !.L = n, !.ctor = c] : n \in ns \ {0}, c \in {"bytes", "string"}}
           \cup {[E0 EXCEPT !.kind = "empty", !.ctor = c] : c \in {"empty", "bytes", "string"}}
ClosedEnv == {[E0 EXCEPT !.kind = "closed", !.ctor = "closed"]}

R0(n) == [E0 EXCEPT !.N = n, !.closer = TRUE, !.ctor = "reader"]

StreamsUnknown(ns, chunks, eofws) ==
  {[R0(n) EXCEPT !.kind = "stream", !.L = -1, !.chunk = c, !.eofw = w, !.ca = a] :
     n \in ns, c \in chunks, w \in eofws, a \in BOOLEAN}
StreamsKnown(ns, chunks, eofws, deltas) ==
  {x \in {[R0(n) EXCEPT !.kind = "stream", !.L = n + d, !.chunk = c, !.eofw = w,
                        !.how = h, !.ct = (h = "stat")] :
            n \in ns, d \in deltas, c \in chunks, w \in eofws, h \in {"decl", "stat"}} : x.L >= 0}
Seeks(ns, chunks, eofws, deltas) ==
  {x \in {[R0(n) EXCEPT !.kind = "seek", !.L = n + d, !.chunk = c, !.eofw = w, !.cs = TRUE,
                        !.how = h, !.ct = (h = "stat")] :
            n \in ns, d \in deltas, c \in chunks, w \in eofws, h \in {"decl", "stat", "seek"}} :
     x.L >= 0 /\ (x.how = "seek" => x.L = x.N)}
Ats(ns, eofws, deltas) ==
  {x \in {[R0(n) EXCEPT !.kind = "at", !.L = n + d, !.eofw = w, !.ca = TRUE,
                        !.how = h, !.ct = (h = "stat"), !.cs = (h = "seek")] :
            n \in ns, d \in deltas, w \in eofws, h \in {"decl", "stat", "seek"}} :
     x.L >= 0 /\ (x.how = "seek" => x.L = x.N)}

Plain(ns, chunks) ==
  Mem(ns) \cup StreamsUnknown(ns, chunks, BOOLEAN) \cup StreamsKnown(ns, chunks, BOOLEAN, {0})
  \cup Seeks(ns, chunks, BOOLEAN, {0}) \cup Ats(ns, BOOLEAN, {0})
Lazy(ns) ==
  {[e EXCEPT !.lazy = TRUE] :
     e \in StreamsUnknown(ns, {0, 1}, {FALSE}) \cup StreamsKnown(ns, {0}, {TRUE}, {-1, 0, 1})
           \cup Seeks(ns, {0, 1}, {FALSE}, {0, 1})}
(* sources longer or shorter than their declared length *)
Odd(ns, chunks) ==
  StreamsKnown(ns, chunks, {FALSE}, {-1, 1}) \cup Seeks(ns, chunks, {FALSE}, {-1, 1})
  \cup Ats(ns, {FALSE}, {-1, 1})
Few(ns, chunks) ==
  Mem(ns) \cup StreamsUnknown(ns, chunks, {FALSE}) \cup StreamsKnown(ns, chunks, {TRUE}, {0})
  \cup Seeks(ns, chunks, {FALSE}, {0}) \cup Ats(ns, {FALSE}, {0})
Seekable(ns, chunks) ==
  Mem(ns) \cup Seeks(ns, chunks, BOOLEAN, {-1, 0, 1}) \cup Ats(ns, BOOLEAN, {-1, 0, 1})
(* failing sources: permanent or transient; failing reads deliver what      *)
(* precedes the failure                                                     *)
Failing(ns, chunks) ==
  UNION {{[e EXCEPT !.F = fw[1], !.fw = fw[2], !.trans = t] :
            fw \in {x \in (0..e.N) \X BOOLEAN : IF x[2] THEN x[1] > 0 ELSE e.kind = "stream" \/ x[1] < e.N},
            t \in BOOLEAN} :
           e \in StreamsUnknown(ns, chunks, {FALSE}) \cup StreamsKnown(ns, chunks, {FALSE}, {-1, 0, 1})
                 \cup Seeks(ns, chunks, {FALSE}, {0}) \cup Ats(ns, {FALSE}, {0})}
(* closing: closeable or not, failing Close or not *)
Closers(ns) ==
  UNION {{[e EXCEPT !.closer = c, !.cerr = x] : c \in (IF e.ct THEN {TRUE} ELSE BOOLEAN), x \in BOOLEAN} :
           e \in {e \in Few(ns, {0}) : HasReader(e)}}
  \cup {e \in Mem(ns) : TRUE} \cup ClosedEnv
  \cup {[e EXCEPT !.F = 0] : e \in {e \in StreamsUnknown(ns, {0}, {FALSE}) : TRUE}}

(* Sets of sources by name: ns are the source sizes used. *)
EnvsNamed(name, ns) ==
  CASE name = "plain"    -> Plain(ns, {0, 1}) \cup Odd(ns, {0, 2}) \cup Lazy(ns)
    [] name = "few"      -> Few(ns, {0, 1}) \cup Odd(ns, {0}) \cup Lazy(ns)
    [] name = "seekable" -> Seekable(ns, {0, 1}) \cup {e \in Lazy(ns) : Rand(e)}
    [] name = "writable" -> Mem(ns) \cup ClosedEnv
    [] name = "failing"  -> Failing(ns, {0, 1})
    [] name = "failrand" -> {e \in Failing(ns, {0, 1}) : Rand(e)}
    [] name = "failknown" -> {e \in Failing(ns, {0, 1}) : e.L >= 0}
    [] name = "seekwalk" -> Seekable(ns, {0, 1}) \cup {e \in Failing(ns, {0, 1}) : Rand(e)}
    (* for sources with very high positions (see the driver) *)
    [] name = "liftrand" -> {e \in Seekable(ns, {0}) : e.kind \in {"seek", "at"}}
    [] name = "liftstream" -> StreamsKnown(ns, {0, 1}, {FALSE}, {0})
    (* for very many copies *)
    [] name = "onestream" -> StreamsUnknown(ns, {0}, {FALSE})
    [] name = "oneseek"  -> Seeks(ns, {0}, {FALSE}, {0})
    [] name = "oneat"    -> Ats(ns, {FALSE}, {0})
    [] name = "closers"  -> Closers(ns)
    [] name = "streams"  -> StreamsUnknown(ns, {0, 1}, BOOLEAN)
                            \cup StreamsKnown(ns, {0, 1}, BOOLEAN, {-1, 0, 1})
    [] name = "walk"     -> Plain(ns, {0, 1}) \cup Odd(ns, {0, 2}) \cup Lazy(ns) \cup Failing(ns, {0, 1})
                            \cup Closers(ns)
=============================================================================
