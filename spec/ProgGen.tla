------------------------------- MODULE ProgGen -------------------------------
(***************************************************************************)
(* Behaviours of Machine, generated by TLC (simulation) to be replayed     *)
(* into the library: a configuration, initial registers, and steps, each   *)
(* with the set of patterns the destination may hold afterwards and the    *)
(* one this behaviour goes on with.                                        *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, TLC, Randomization, SequencesExt

In    == ndJsonDeserialize(IOEnv.GEN)[1]
Cfgs  == In.cfgs
Pick  == In.pick                            \* configurations to use, as a sequence
Depth == In.depth
SpecName(i) == CASE i = 0 -> "nan" [] i = 1 -> "inf" [] OTHER -> "naninf"
Fmts == [i \in 1..Len(Cfgs) |-> [n |-> Cfgs[i].n, es |-> Cfgs[i].es, sp |-> SpecName(Cfgs[i].sp)]]
NR == 4

Ints == {2, 3, 5, 7, 10, 13, 100, 641, 1000, 65535, 123456789}

(* a pattern whose magnitude has at most k bits, k itself random *)
RandMag(k) ==
  LET l == [i \in 1..(k \div LB + 1) |-> RandomElement(0..(Base - 1))]
  IN  BLow(BNorm(l), k)
RandPat(F) ==
  LET m == CASE RandomElement(1..3) = 1 -> RandMag(RandomElement(1..(F.n - 1)))
             [] OTHER -> RandMag(F.n - 1)
      s == RandomElement(0..1)
  IN  <<IF m = <<>> THEN 0 ELSE s, m>>

Plain == {"add", "sub", "mul", "div"}
Ops1  == UnaryOps \cup BinaryOps \cup Consts \cup {"int", "swap"}

VARIABLES c, regs, init, hist
vars == <<c, regs, init, hist>>

Init == /\ c \in {Pick[i] : i \in 1..Len(Pick)}
        /\ regs = [i \in 1..NR |-> RandPat(Fmts[c])]
        /\ init = regs
        /\ hist = <<>>

Allowed(st) ==
  CASE st.o = "int" -> {Encode(Fmts[c], RealN(st.b % 2, BOfInt(st.i), 0))}
    [] OTHER -> Results(Fmts[c], st.o, regs[st.a], regs[st.b])

Steps(ops) == [o : ops, d : 1..NR, a : 1..NR, b : 1..NR, i : Ints]

Do(st) ==
  IF st.o = "swap"
  THEN /\ regs' = [regs EXCEPT ![st.d] = regs[st.a], ![st.a] = regs[st.d]]
       /\ hist' = Append(hist, <<st.o, st.d, st.a, st.b, 0, <<regs[st.a]>>, regs[st.a]>>)
  ELSE \E r \in Allowed(st) :
         /\ regs' = [regs EXCEPT ![st.d] = r]
         /\ hist' = Append(hist, <<st.o, st.d, st.a, st.b, st.i, SetToSeq(Allowed(st)), r>>)

Next == /\ Len(hist) < Depth
        /\ \E w \in RandomSubset(1, 1..4) :
             \E st \in RandomSubset(1, Steps(IF w = 1 THEN Ops1 ELSE IF w = 2 THEN UnaryOps ELSE Plain)) : Do(st)
        /\ UNCHANGED <<c, init>>

Spec == Init /\ [][Next]_vars

RegsCanonical == Canonical(Fmts[c], regs)
(* every step is one of Machine's *)
IsMachineStep ==
  [][LET h == hist'[Len(hist')]
         F == Fmts[c]
     IN  \/ h[1] = "int" /\ \A i \in 1..NR : i # h[2] => regs'[i] = regs[i]
         \/ StepOK(F, Cfgs[c].ft, [o |-> h[1], d |-> h[2], a |-> h[3], b |-> h[4], e |-> 1], regs, regs')]_vars
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson([c |-> c, i |-> init, s |-> hist]))
=============================================================================
