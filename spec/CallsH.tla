------------------------------- MODULE CallsH --------------------------------
(***************************************************************************)
(* Recorded calls of the types that compute in host floats, checked        *)
(* against Host.  Header: cfgs |-> the types.                              *)
(***************************************************************************)
EXTENDS Host, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Kind(i) == Trace[1].cfgs[i]

Same2(K, x, y) == IF K.k = "pf" /\ K.sp = 1 /\ IsInf(x) /\ IsInf(y) THEN TRUE ELSE SameN(x, y)
ToFloat2(K, T, x, w) == IF K.k = "pf" /\ K.sp = 1 /\ IsInf(x) THEN IIsInf(T, w) ELSE IPackOK(T, w, x)

CallOK(row, i) ==
  LET K == Kind(row.c)
      H == Hof(K)
      r == row.r[i]
      x == HostOf(K, row.a[i])
      y == HostOf(K, row.b[i])
      z == HostOf(K, row.d[i])
      v == ValueOf(K, row.a[i])
  IN CASE row.o = "add"  -> BackOK(K, r, HostAdd(H, x, y))
       [] row.o = "sub"  -> BackOK(K, r, HostAdd(H, x, NegN(y)))
       [] row.o = "mul"  -> BackOK(K, r, HostMul(H, x, y))
       [] row.o = "square" -> BackOK(K, r, HostMul(H, x, x))
       [] row.o = "div"  -> DivBackOK(K, x, y, r, IsMinusZero(K, row.b[i]))
       [] row.o = "inv"  -> DivBackOK(K, OneN, x, r, IsMinusZero(K, row.a[i]))
       [] row.o = "half" -> \E T \in {H, F64} : BackOK(K, r, NearN(T, ScaleN(x, -1)))
       [] row.o = "twice" -> BackOK(K, r, NearN(H, ScaleN(x, 1)))
       [] row.o = "fma"  -> \E w \in HostFma(H, x, y, z) : BackOK(K, r, w)
       \* product and sum rounded once
       [] row.o = "fmax" -> BackOK(K, r, AddN(UF, MulSpecialN(x, y), z))
       \* 2^x to nearest: of a half through float, of a float through double
       [] row.o = "exp2n" -> NearExp2OK(K, v, r, IF K.fb = 10 THEN 20 ELSE 45)
       [] row.o = "slimits" -> FLimitsOK(K, r)
       [] row.o = "f16i" -> BackOK(K, r, IDecode(F16, row.a[i]))
       [] row.o = "exp2" -> FExp2OK(K, v, r)
       \* sign bit twice, then the word
       [] row.o = "isneg" -> r = 3 * ISign(Tof(K), row.a[i]) + 4 * BToInt(row.a[i])
       \* the number in the text is the pattern, as a signed integer
       [] row.o = "tnum" -> r = BToInt(row.a[i]) - ISign(Tof(K), row.a[i]) * Pow2Int(1 + K.eb + K.fb)
       [] row.o = "sqrt" -> BackOK(K, r, HostSqrt(H, x))
       [] row.o = "rem"  -> BackOK(K, r, HostRem(x, y))
       [] row.o = "neg"  -> NegOK(K, row.a[i], r)
       [] row.o = "abs"  -> AbsOK(K, row.a[i], r)
       [] row.o = "cmp"  -> (K.k = "pf" /\ (IsNaN(v) \/ IsNaN(y) \/ (K.sp = 1 /\ (IsInf(v) \/ IsInf(y))))) \/ CmpBitsOK(row.m, v, ValueOf(K, row.b[i]), r)
       [] row.o = "min"  -> (K.k = "pf" /\ K.sp = 1 /\ (IsInf(v) \/ IsInf(ValueOf(K, row.b[i]))) /\ r \in {row.a[i], row.b[i]}) \/ PickOK(K, row.a[i], row.b[i], r, 1)
       [] row.o = "max"  -> (K.k = "pf" /\ K.sp = 1 /\ (IsInf(v) \/ IsInf(ValueOf(K, row.b[i]))) /\ r \in {row.a[i], row.b[i]}) \/ PickOK(K, row.a[i], row.b[i], r, -1)
       [] row.o = "f32o" -> ToFloat2(K, F32, v, r)
       [] row.o = "f64o" -> ToFloat2(K, F64, v, r)
       [] row.o = "into" -> FixOutOK(32, 0, v, r)
       [] row.o = "f32i" -> BackOK(K, r, IDecode(F32, row.a[i]))
       [] row.o = "f64i" -> BackOK(K, r, IDecode(F64, row.a[i]))
       [] row.o = "inti" -> BackOK(K, r, RealN(row.a[i][1], Tail(row.a[i]), 0))
       [] row.o = "unpk" -> Same2(K, UnpN(row.w, r), v)
       [] row.o = "pack" -> BackOK(K, r, UnpN(row.w, row.a[i]))
       [] row.o = "same" -> r = row.a[i]
       [] row.o = "rtrip" -> SameN(ValueOf(K, r), v)
       \* zero, negative [, NaN, infinity, one, unit range]
       [] row.o = "cls"  -> IF K.k = "pf"
                            THEN /\ Bit(r, 0) = IsZero(v)
                                 /\ (IsReal(v) \/ IsZero(v)) => Bit(r, 1) = (IsReal(v) /\ v.s = 1)
                                 /\ Bit(r, 2) = IsNaN(v) /\ Bit(r, 3) = IsInf(v) /\ Bit(r, 4) = SameN(v, OneN)
                                 /\ (IsReal(v) \/ IsZero(v)) => Bit(r, 5) = (CmpN(v, ZeroN) >= 0 /\ CmpN(v, OneN) <= 0)
                            ELSE /\ row.a[i] = <<>> => Bit(r, 0)
                                 /\ ~IsZero(v) => ~Bit(r, 0)
                                 /\ (IsReal(v) \/ IsInf(v)) => Bit(r, 1) = (v.s = 1)
       [] row.o = "next" -> PatW(r) = NextP(Fof(K), PatW(row.a[i]))
       [] row.o = "prev" -> PatW(r) = PrevP(Fof(K), PatW(row.a[i]))
       [] row.o = "psig" -> PatW(r) = SigmoidP(Fof(K), PatW(row.a[i]))
       [] row.o = "psof" -> PatW(r) = SoftplusP(Fof(K), PatW(row.a[i]))
       [] row.o = "ur1m" -> OneMinusOK(Fof(K), PatW(row.a[i]), PatW(r))
       [] row.o = "const" -> FConstOK(K, row.n[i], r)
       [] row.o = "limits" -> LimitsOK(Fof(K), r)
       \* MATLAB's halves: from floats, from integers by way of float, to
       \* integers, to truth values; zero has any sign
       [] row.o = "away" -> BackOK(K, r, NearAwayN(Tof(K), IDecode(IF row.w = 32 THEN F32 ELSE F64, row.a[i])))
       [] row.o = "awayint" -> BackOK(K, r, NearAwayN(Tof(K), NearN(F32, RealN(row.a[i][1], Tail(row.a[i]), 0))))
       [] row.o = "toint" -> SameN(RealN(r[1], Tail(r), 0), NearIntN(row.w, row.g, v))
       [] row.o = "tological" -> BToInt(Tail(r)) = (IF IsZero(v) THEN 0 ELSE 1)
       \* class, complexity and dimensions of the result; a message and no
       \* result; bytes changed outside the result
       [] row.o = "shape" -> r = row.a[i]
       [] row.o = "refuse" -> r = <<1, 0>>
       [] row.o = "guard" -> r = 0

RowBad(k)  == LET row == Trace[k] IN {i \in 1..Len(row.r) : ~CallOK(row, i)}
RowLen(k)  == Len(Trace[k].r)
RowName(k) == Trace[k].o
NRows      == Len(Trace)

VARIABLES l, bad, calls
Loop == INSTANCE TraceLoop
Spec == Loop!Spec
Accepted == Loop!Accepted
=============================================================================
