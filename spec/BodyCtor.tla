------------------------------ MODULE BodyCtor ------------------------------
(***************************************************************************)
(* What FromReader and FromReaderAndLength make of a source (B14).         *)
(*                                                                         *)
(* A configuration: the interfaces the source offers (closer, ct: fs.File, *)
(* cs: io.Seeker, ca: io.ReaderAt), its size N, the size Stat reports, its *)
(* own cursor, the declared length (call = "reader": none), a failing Stat *)
(* or Seek, and whether it is a file but not a regular one (irr: its size   *)
(* means nothing, it cannot be repositioned).  All configurations are enumerated (Mode "gen"), and each *)
(* recorded outcome is checked (Mode "trace").                             *)
(***************************************************************************)
EXTENDS BodyCore, TLC, Json, IOUtils

CONSTANTS Mode, Sizes

Traces == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE_FILE) ELSE <<>>

Configs ==
  {c \in [closer: BOOLEAN, ct: BOOLEAN, cs: BOOLEAN, ca: BOOLEAN, N: Sizes, size: {0, 1, 2},
          cur: {0, 1, 2}, call: {"reader", "length"}, decl: {-2, -1, 0, 1, 2, 3, 4, 5},
          irr: BOOLEAN, staterr: BOOLEAN, seekerr: {0, 1, 2}] :
     /\ c.ct => c.closer
     /\ ~ c.ct => c.size = 1 /\ ~ c.staterr
     /\ c.call = "reader" => c.decl = -1
     /\ c.irr => c.ct /\ c.decl < 0 /\ c.cur = 0 /\ c.seekerr = 0
     /\ ~ c.cs => c.cur = 0 /\ c.seekerr = 0}
\* size: 0 = smaller than the source by one, 1 = right, 2 = larger by one; decl: 2.. = N - 1, N, N + 1; 5 = far larger
Huge == 1000000000    \* stands for lengths that take more than 31 bits; the driver uses 2^31, 2^32 + 1, 2^40 ...
StatSize(c) == Max2(0, c.N + c.size - 1)
Declared(c) == CASE c.decl = -2 -> -5 [] c.decl = -1 -> -1 [] c.decl = 0 -> 0 [] c.decl = 1 -> 1 [] c.decl = 5 -> Huge
                 [] OTHER -> Max2(0, c.N + c.decl - 3)

ByStat(c) == Declared(c) < 0 /\ c.ct
BySeek(c) == Declared(c) < 0 /\ ~ c.ct /\ c.cs
Length(c) == CASE Declared(c) >= 0 -> Declared(c)
               [] ByStat(c)        -> IF c.irr THEN -1 ELSE StatSize(c)
               [] BySeek(c)        -> c.N
               [] OTHER            -> -1
Promised(c) == ~ c.irr /\ (c.cs \/ (c.ca /\ c.ct))
Delivers(c) == IF Length(c) < 0 THEN c.N ELSE Min2(c.N, Length(c))

(* o: the outcome.  o.seeks: Seek calls made while constructing. *)
Fails(c, o) == \/ ByStat(c) /\ c.staterr
               \/ c.seekerr > 0 /\ o.seeks >= c.seekerr
RemOK(c, v) == \/ v = Length(c)
               \/ Length(c) < 0 /\ v = c.N        \* knowing more is allowed
Good(c, o) ==
  IF Fails(c, o)
  THEN ~ o.body /\ o.e = (IF ByStat(c) /\ c.staterr THEN "stat" ELSE "seek")
  ELSE /\ o.body /\ o.e = "nil"
       /\ RemOK(c, o.rem)
       /\ Promised(c) => o.seek /\ o.readat /\ o.cseek /\ o.creadat
       /\ c.seekerr = 0 => /\ DataOK(0, o) /\ o.n = Delivers(c) /\ o.end = "eof"
                           /\ o.rem2 = 0
       /\ o.unwrap
Clause(c, o) == IF ~ Fails(c, o) /\ o.body /\ RemOK(c, o.rem) /\ (Promised(c) => o.seek /\ o.readat /\ o.cseek /\ o.creadat)
                   /\ c.cur = 0
                THEN {"B14", "B01"} ELSE {"B14"}

(* A Body given to FromReader comes back unchanged. *)
AsIs(o) == o.same /\ o.e = "nil"

VARIABLES i, done
vars == <<i, done>>
Init == /\ IF Mode = "gen" THEN i \in Configs ELSE i \in 1..Len(Traces)
        /\ done = FALSE
Gen == /\ Mode = "gen" /\ ~ done
       /\ PrintT("SCN " \o ToJson(i @@ [statsize |-> StatSize(i), declared |-> Declared(i)]))
       /\ done' = TRUE /\ UNCHANGED i
Judge == /\ Mode = "trace" /\ ~ done
         /\ LET t == Traces[i]
                ok == IF t.kind = "asis" THEN AsIs(t.out) ELSE Good(t.cfg, t.out)
            IN IF ok THEN PrintT(<<"ACCEPT", t.id>>)
               ELSE PrintT(<<"VIOL", t.id, 1, IF t.kind = "asis" THEN {"B14"} ELSE Clause(t.cfg, t.out)>>)
         /\ done' = TRUE /\ UNCHANGED i
Next == Gen \/ Judge
Spec == Init /\ [][Next]_vars

(* every configuration has a meaningful expectation *)
Sane == Mode = "gen" => /\ Length(i) >= -1
                        /\ Promised(i) => Length(i) >= 0
                        /\ Delivers(i) \in 0..i.N
=============================================================================
