------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* A machine whose registers hold posits of one format and whose steps are *)
(* the public operations.  A step is a record                              *)
(*    [o |-> operation, d |-> destination, a, b, e |-> source registers]   *)
(* StepOK relates the registers before and after: the destination holds an *)
(* allowed result of the operation on the sources, every other register is *)
(* untouched.  The destination may be one of the sources: the results are  *)
(* those of the registers before the step.                                 *)
(***************************************************************************)
EXTENDS Ops, Ieee

Consts == {"zero", "one", "mone", "maxpos", "minpos", "lowest", "nan", "inf"}
ConstP(F, name) ==
  CASE name = "zero"   -> ZeroP
    [] name = "one"    -> OneP(F)
    [] name = "mone"   -> NegP(F, OneP(F))
    [] name = "maxpos" -> MaxPosP(F)
    [] name = "minpos" -> MinPosP(F)
    [] name = "lowest" -> LowestP(F)
    [] name = "nan"    -> NanP(F)
    [] name = "inf"    -> InfP(F, 0)

UnaryOps  == {"copy", "neg", "abs", "inv", "half", "twice", "next", "prev", "pack"}
BinaryOps == {"add", "sub", "mul", "div", "min", "max"}

(* the result r of operation o on patterns x, y, z *)
ResultOK(F, ft, o, x, y, z, r) ==
  CASE o \in Consts  -> r = ConstP(F, o)
    [] o = "copy"    -> r = x
    [] o = "pack"    -> r = x                \* unpack and pack again
    [] o = "neg"     -> r = NegP(F, x)
    [] o = "abs"     -> r = AbsP(F, x)
    [] o = "next"    -> r = NextP(F, x)
    [] o = "prev"    -> r = PrevP(F, x)
    [] o = "inv"     -> InvValOK(F, Decode(F, x), r)
    [] o = "half"    -> HalfValOK(F, Decode(F, x), r)
    [] o = "twice"   -> TwiceValOK(F, Decode(F, x), r)
    [] o = "add"     -> AddValOK(F, Decode(F, x), Decode(F, y), r)
    [] o = "sub"     -> AddValOK(F, Decode(F, x), NegN(Decode(F, y)), r)
    [] o = "mul"     -> MulValOK(F, Decode(F, x), Decode(F, y), r)
    [] o = "div"     -> DivValOK(F, Decode(F, x), Decode(F, y), r)
    [] o = "min"     -> MinOK(F, x, y, r)
    [] o = "max"     -> MaxOK(F, x, y, r)
    [] o = "fma"     -> FmaOK(F, ft, x, y, z, r)

(* through a float: f is the float seen in between *)
ViaOK(F, T, x, f, r) ==
  /\ LET v == Decode(F, x)
     IN  IF IsInf(v) /\ F.sp = "inf" THEN IIsInf(T, f) ELSE IPackOK(T, f, v)
  /\ PackOK(F, r, IDecode(T, f))

(* sorting the registers: a permutation in order; only used when all are ordered *)
SortOK(F, q0, q1) ==
  LET V(p) == Decode(F, p)
      Count(q, p) == LET S == {i \in 1..Len(q) : q[i] = p} IN Len(SelectSeq(q, LAMBDA u : u = p))
  IN  /\ \A i \in 1..Len(q0) : Count(q0, q0[i]) = Count(q1, q0[i])
      /\ \A i \in 1..(Len(q1) - 1) : CmpN(V(q1[i]), V(q1[i + 1])) <= 0

Canonical(F, q) == \A i \in 1..Len(q) : IsPat(F, q[i])

StepOK(F, ft, st, q0, q1) ==
  /\ Canonical(F, q1)
  /\ Len(q1) = Len(q0)
  /\ CASE st.o = "swap" -> /\ q1[st.d] = q0[st.a] /\ q1[st.a] = q0[st.d]
                           /\ \A i \in 1..Len(q0) : i \notin {st.a, st.d} => q1[i] = q0[i]
       [] st.o = "sort" -> SortOK(F, q0, q1)
       [] OTHER ->
            /\ \A i \in 1..Len(q0) : i # st.d => q1[i] = q0[i]
            /\ CASE st.o = "f32" -> ViaOK(F, F32, q0[st.a], st.f, q1[st.d])
                 [] st.o = "f64" -> ViaOK(F, F64, q0[st.a], st.f, q1[st.d])
                 [] OTHER -> ResultOK(F, ft, st.o, q0[st.a], q0[st.b], q0[st.e], q1[st.d])

(***************************************************************************)
(* The allowed results as a set, for generating behaviours                 *)
(***************************************************************************)
Results(F, o, x, y) ==
  CASE o \in Consts -> {ConstP(F, o)}
    [] o \in {"copy", "pack"} -> {x}
    [] o = "neg"   -> {NegP(F, x)}
    [] o = "abs"   -> {AbsP(F, x)}
    [] o = "next"  -> {NextP(F, x)}
    [] o = "prev"  -> {PrevP(F, x)}
    [] o = "inv"   -> {InvP(F, x)}
    [] o = "half"  -> {HalfP(F, x)}
    [] o = "twice" -> {TwiceP(F, x)}
    [] o = "add"   -> AddSet(F, x, y)
    [] o = "sub"   -> SubSet(F, x, y)
    [] o = "mul"   -> {MulP(F, x, y)}
    [] o = "div"   -> {DivP(F, x, y)}
    [] o = "min"   -> {p \in {x, y} : MinOK(F, x, y, p)}
    [] o = "max"   -> {p \in {x, y} : MaxOK(F, x, y, p)}
=============================================================================
