------------------------------ MODULE ProgTrace ------------------------------
(***************************************************************************)
(* Programs run on the real library, step by step against Machine.  Line 1 *)
(* of the trace holds the configurations; every other line is a program:   *)
(* the initial registers i and the steps s, each with the registers q that *)
(* were observed after it.                                                 *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfgs  == Trace[1].cfgs
NRows == Len(Trace)
SpecName(i) == CASE i = 0 -> "nan" [] i = 1 -> "inf" [] OTHER -> "naninf"
Fmts == [i \in 1..Len(Cfgs) |-> [n |-> Cfgs[i].n, es |-> Cfgs[i].es, sp |-> SpecName(Cfgs[i].sp)]]
PatOf(c, v) == IF Cfgs[c].w = 1 THEN <<v[1], Tail(v)>> ELSE Pat(v)
Regs(c, q) == [j \in 1..Len(q) |-> PatOf(c, q[j])]

VARIABLES l,      \* program
          k,      \* steps of it consumed
          regs,   \* the registers of the machine
          bad
vars == <<l, k, regs, bad>>

Start(i) == IF i <= NRows THEN Regs(Trace[i].c, Trace[i].i) ELSE <<>>
Init == l = 2 /\ k = 0 /\ regs = Start(2) /\ bad = 0

(* one step of the program: the observed registers must be a successor of *)
(* the machine's                                                           *)
Step ==
  /\ l <= NRows
  /\ k < Len(Trace[l].s)
  /\ LET row == Trace[l]
         st  == row.s[k + 1]
         q1  == Regs(row.c, st.q)
     IN  /\ StepOK(Fmts[row.c], Cfgs[row.c].ft, st, regs, q1)
         /\ regs' = q1
  /\ k' = k + 1
  /\ UNCHANGED <<l, bad>>

NewProgram ==
  /\ l <= NRows
  /\ k = Len(Trace[l].s)
  /\ l' = l + 1
  /\ k' = 0
  /\ regs' = Start(l + 1)
  /\ UNCHANGED bad

(* no allowed step leads to what was observed: report, go to the next program *)
Reject ==
  /\ l <= NRows
  /\ k < Len(Trace[l].s)
  /\ ~ENABLED Step
  /\ PrintT(<<"REJECT", l, k + 1, Trace[l].s[k + 1].o, Trace[l].c>>)
  /\ l' = l + 1
  /\ k' = 0
  /\ regs' = Start(l + 1)
  /\ bad' = bad + 1

Next == Step \/ NewProgram \/ Reject
Spec == Init /\ [][Next]_vars

(* in every state the machine holds canonical posits *)
RegsCanonical == l <= NRows => Canonical(Fmts[Trace[l].c], regs)

\* highest program reached
Accepted == PrintT(<<"DONE", TLCGet(1), NRows>>)
Seen == TLCSet(1, IF l > NRows THEN NRows ELSE l - 1)
=============================================================================
