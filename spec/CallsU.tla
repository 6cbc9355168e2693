------------------------------- MODULE CallsU --------------------------------
(***************************************************************************)
(* Recorded calls of the unpacked number type and of the conversions       *)
(* between floating and fixed point formats, checked against Unp.          *)
(* Header: cfgs |-> formats [eb, fb, dn].                                  *)
(***************************************************************************)
EXTENDS Unp, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Fmt(i) == Trace[1].cfgs[i]

CallOK(row, i) ==
  LET A == UnpN(row.w, row.a[i])
      B == UnpN(row.w, row.b[i])
      R == UnpN(row.w, row.r[i])
      W == UnpWF(row.w, row.r[i])
  IN CASE row.o = "uadd" -> W /\ UAddOK(row.w, A, B, R)
       [] row.o = "usub" -> W /\ UAddOK(row.w, A, NegN(B), R)
       [] row.o = "umul" -> W /\ UMulOK(row.w, A, B, R)
       [] row.o = "udiv" -> W /\ UDivOK(row.w, A, B, R)
       [] row.o = "uinv" -> W /\ UInvOK(row.w, A, R)
       [] row.o = "uneg" -> W /\ SameN(R, NegN(A))
       [] row.o = "ueq"  -> Bit(row.r[i], 0) = UEq(A, B) /\ Bit(row.r[i], 1) = ~UEq(A, B)
       \* is regular, infinity, NaN, zero, positive
       [] row.o = "ucls" -> /\ Bit(row.r[i], 0) = IsReal(A) /\ Bit(row.r[i], 1) = IsInf(A)
                            /\ Bit(row.r[i], 2) = IsNaN(A) /\ Bit(row.r[i], 3) = IsZero(A)
                            /\ (IsReal(A) \/ IsInf(A)) => Bit(row.r[i], 4) = (A.s = 0)
       [] row.o = "fin"  -> FromFloatOK(row.w, Fmt(row.t), row.a[i], row.r[i])
       [] row.o = "fout" -> ToFloatU(row.w, Fmt(row.t), row.a[i], row.r[i])
       [] row.o = "xin"  -> FromFixOK(row.w, row.f, row.a[i], row.r[i])
       [] row.o = "xout" -> ToFixOK(row.w, row.n, row.f, row.a[i], row.r[i])
       [] row.o = "cvt"  -> IPackD(Fmt(row.u), row.r[i], IDecodeD(Fmt(row.t), row.a[i]))
       [] row.o = "uconst" -> SameN(R, CASE row.n[i] = "zero" -> ZeroN [] row.n[i] = "one" -> OneN
                                         [] row.n[i] = "nan" -> NanN [] row.n[i] = "pinf" -> InfN(0)
                                         [] row.n[i] = "ninf" -> InfN(1))
       \* the named words of a float format
       [] row.o = "fcst" ->
            LET T == Fmt(row.t)
                w == row.r[i]
            IN  CASE row.n[i] = "pinf" -> w = IInfMag(T)
                  [] row.n[i] = "ninf" -> w = BAdd(IInfMag(T), BPow2(T.eb + T.fb))
                  [] row.n[i] = "nan"  -> IIsNaN(T, w)
                  [] row.n[i] = "one"  -> SameN(IDecode(T, w), OneN)
                  [] row.n[i] = "two"  -> SameN(IDecode(T, w), RealN(0, BOne, 1))
                  [] row.n[i] = "max"  -> w = IMaxMag(T)
                  [] row.n[i] = "lowest" -> w = BAdd(IMaxMag(T), BPow2(T.eb + T.fb))
                  [] row.n[i] = "min"  -> w = BPow2(T.fb)
                  [] row.n[i] = "signbit" -> w = BPow2(T.eb + T.fb)

RowBad(k)  == LET row == Trace[k] IN {i \in 1..Len(row.r) : ~CallOK(row, i)}
RowLen(k)  == Len(Trace[k].r)
RowName(k) == Trace[k].o
NRows      == Len(Trace)

VARIABLES l, bad, calls
Loop == INSTANCE TraceLoop
Spec == Loop!Spec
Accepted == Loop!Accepted
=============================================================================
