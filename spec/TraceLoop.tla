------------------------------ MODULE TraceLoop ------------------------------
(***************************************************************************)
(* The state machine that consumes a recorded trace: one row per step; a   *)
(* rejected row is reported and counted, and the rest is still judged.     *)
(* RowBad(l) is the set of the calls of row l that are not allowed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS NRows, RowBad(_), RowLen(_), RowName(_)
VARIABLES l, bad, calls

Init == l = 2 /\ bad = 0 /\ calls = 0

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Consume ==
  /\ l <= NRows
  /\ LET B == RowBad(l)
     IN  /\ IF B = {} THEN TRUE ELSE PrintT(<<"REJECT", l, MinOf(B), RowName(l), B>>)
         /\ bad' = bad + (IF B = {} THEN 0 ELSE 1)
         /\ calls' = calls + RowLen(l)
  /\ l' = l + 1
Spec == Init /\ [][Consume]_<<l, bad, calls>>

Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, NRows>>)
=============================================================================
