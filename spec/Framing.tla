------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* Design model behind H03: how the end of a response reaches the client.  *)
(*                                                                         *)
(* A handler writes a body of N bytes, of which the first F can be         *)
(* produced (F < N: the source then fails).  The server delimits the body  *)
(* by the announced length, by chunks (HTTP/1.1) or by closing the         *)
(* connection (HTTP/1.0); a body that fits its buffer of Buf bytes when    *)
(* the handler returns gets its length computed.  The Adaptor recovers, so *)
(* the handler always returns; Abort: it makes the server drop the         *)
(* connection after a failure.                                             *)
(*                                                                         *)
(* Result: with a known length a cut is always visible.  With an unknown   *)
(* length and no abort it is not (the recorded known finding of H03), and  *)
(* over HTTP/1.0 nothing the handler does can make it visible.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Protos, Lengths, MaxN, Buf, Abort

VARIABLES proto, len, N, F, written, buffered, wire, frame, phase, conn
vars == <<proto, len, N, F, written, buffered, wire, frame, phase, conn>>
(* wire: bytes on the wire; frame: how the body is delimited, once the      *)
(* header went out: <<"none">>, <<"length", n>>, <<"chunked", ended>>,      *)
(* <<"close">>                                                              *)
Init == /\ proto \in Protos /\ len \in Lengths
        /\ N \in 0..MaxN /\ F \in 0..MaxN /\ F <= N
        /\ written = 0 /\ buffered = 0 /\ wire = 0
        /\ frame = <<"none">> /\ phase = "serving" /\ conn = "open"

Header == IF len = "known" THEN <<"length", N>>
          ELSE IF proto = "1.1" THEN <<"chunked", FALSE>> ELSE <<"close">>
Write == /\ phase = "serving" /\ written < F
         /\ written' = written + 1
         /\ buffered' = buffered + 1
         /\ UNCHANGED <<proto, len, N, F, wire, frame, phase, conn>>
Spill == /\ phase = "serving" /\ buffered > Buf
         /\ frame' = IF frame = <<"none">> THEN Header ELSE frame
         /\ wire' = wire + buffered /\ buffered' = 0
         /\ UNCHANGED <<proto, len, N, F, written, phase, conn>>
(* the body came to its end, or its source failed: the Adaptor recovers     *)
Return == /\ phase = "serving" /\ written = F
          /\ phase' = IF F < N /\ Abort THEN "aborted" ELSE "returned"
          /\ UNCHANGED <<proto, len, N, F, written, buffered, wire, frame, conn>>
(* the server completes the response *)
Complete ==
  /\ phase = "returned"
  /\ LET f == IF frame # <<"none">> THEN frame
              ELSE IF len = "known" THEN <<"length", N>>
              ELSE <<"length", buffered>>
         sent == wire + buffered
     IN /\ frame' = IF f[1] = "chunked" THEN <<"chunked", TRUE>> ELSE f
        /\ wire' = sent /\ buffered' = 0
        /\ conn' = IF f[1] = "close" \/ (f[1] = "length" /\ f[2] # sent) THEN "closed" ELSE "open"
  /\ phase' = "done"
  /\ UNCHANGED <<proto, len, N, F, written>>
Drop == /\ phase = "aborted"
        /\ conn' = "closed" /\ phase' = "done" /\ buffered' = 0
        /\ UNCHANGED <<proto, len, N, F, written, wire, frame>>
Next == Write \/ Spill \/ Return \/ Complete \/ Drop
Spec == Init /\ [][Next]_vars

(* the client takes the response for complete *)
Satisfied == /\ frame # <<"none">>
             /\ CASE frame[1] = "length" -> wire = frame[2]
                  [] frame[1] = "chunked" -> frame[2]
                  [] frame[1] = "close" -> conn = "closed"
Honest == phase = "done" => (Satisfied => wire = N)
Whole  == (phase = "done" /\ F = N) => Satisfied /\ wire = N
=============================================================================
