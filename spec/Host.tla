-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* Types that compute in the machine's float or double: the operands are   *)
(* converted to the host format H, the host operation rounds to nearest    *)
(* even, and the result is converted back.                                 *)
(*                                                                         *)
(* A type K is a record                                                    *)
(*   [k |-> "any", eb, fb, dn]   an emulated binary format, truncating     *)
(*   [k |-> "f16", rne]          binary16, rne = 1: rounding to nearest    *)
(*   [k |-> "pf", n, es, sp]     a posit                                   *)
(*   [k |-> "ie", eb, fb]        a binary format that is its own host      *)
(***************************************************************************)
EXTENDS Unp

(***************************************************************************)
(* Rounding to nearest even and truncation in a binary format, as          *)
(* functions: numbers to numbers                                           *)
(***************************************************************************)
LastUnit(T, lead) == Max2(lead - T.fb, 1 - IBias(T) - T.fb)
LeadQ(m, e, d) ==                           \* leading bit of m*2^e/d
  LET k == BBitLen(m) + e - BBitLen(d)
  IN  IF MagCmp(m, e, d, k) >= 0 THEN k ELSE k - 1

NearQ(T, s, m, e, d) ==
  LET u   == LastUnit(T, LeadQ(m, e, d))
      num == IF e >= u THEN BShl(m, e - u) ELSE m
      den == IF e >= u THEN d ELSE BShl(d, u - e)
      qr  == BDivMod(num, den)
      c   == BCmp(BShl(qr[2], 1), den)
      up  == c > 0 \/ (c = 0 /\ ~BEven(qr[1]))
      q   == IF up THEN BAdd(qr[1], BOne) ELSE qr[1]
  IN  IF q # <<>> /\ BBitLen(q) + u - 1 > IBias(T) THEN InfN(s) ELSE RealN(s, q, u)
NearN(T, x) == IF IsReal(x) THEN NearQ(T, x.s, x.m, x.e, BOne) ELSE x

(* the same, halves away from zero *)
NearAwayN(T, x) ==
  IF ~IsReal(x) THEN x
  ELSE LET u == LastUnit(T, BBitLen(x.m) + x.e - 1)
           q == IF x.e >= u THEN BShl(x.m, x.e - u) ELSE BShr(BAdd(BShr(x.m, u - x.e - 1), BOne), 1)
       IN  IF q # <<>> /\ BBitLen(q) + u - 1 > IBias(T) THEN InfN(x.s) ELSE RealN(x.s, q, u)

(* MATLAB's integers: to the nearest, halves away from zero, the ends of   *)
(* the range beyond it, zero for what is not a number.  g = 1: signed      *)
NearIntN(bits, g, x) ==
  LET top == IF g = 1 THEN BPow2(bits - 1) ELSE BPow2(bits)
      max == IF g = 1 /\ x.t # "zero" /\ x.t # "nan" /\ x.s = 1 THEN top ELSE BSub(top, BOne)
      q   == IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BShr(BAdd(BShr(x.m, -x.e - 1), BOne), 1)
  IN  CASE x.t \in {"zero", "nan"} -> ZeroN
        [] g = 0 /\ x.s = 1 -> ZeroN
        [] x.t = "inf" -> RealN(x.s, max, 0)
        [] OTHER -> RealN(x.s, IF BCmp(q, max) > 0 THEN max ELSE q, 0)

TruncFloatN(T, x) ==
  IF ~IsReal(x) THEN x
  ELSE LET lead == BBitLen(x.m) + x.e - 1
           u    == LastUnit(T, lead)
       IN  IF lead > IBias(T) THEN IMagReal(T, x.s, IMaxMag(T))
           ELSE RealN(x.s, IF x.e >= u THEN BShl(x.m, x.e - u) ELSE BShr(x.m, u - x.e), u)

(***************************************************************************)
(* The host's operations                                                   *)
(***************************************************************************)
HostAdd(H, x, y) == NearN(H, AddN(UF, x, y))
HostMul(H, x, y) == NearN(H, MulSpecialN(x, y))
HostDiv(H, x, y) ==
  IF IsReal(x) /\ IsReal(y) THEN NearQ(H, SgnProd(x, y), x.m, x.e - y.e, y.m)
  ELSE DivSpecialN(x, y)
(* a*b+c as the compiler may evaluate it: fused or not *)
HostFma(H, x, y, z) == {HostAdd(H, HostMul(H, x, y), z), HostAdd(H, MulSpecialN(x, y), z)}
HostSqrt(H, x) ==
  CASE IsZero(x) -> ZeroN
    [] IsNaN(x)  -> NanN
    [] x.s = 1   -> NanN
    [] IsInf(x)  -> x
    [] OTHER ->
         LET k == 2 * H.fb + 10 + ((x.e + BBitLen(x.m)) % 2)
             j == IF (x.e - k) % 2 = 0 THEN k ELSE k + 1
             m == BShl(x.m, j)
             r == BSqrt(m)
             sticky == IF BMul(r, r) = m THEN BShl(r, 1) ELSE BAdd(BShl(r, 1), BOne)
         IN  NearN(H, RealN(0, sticky, (x.e - j) \div 2 - 1))
(* the IEEE remainder: x - n*y, n the integer nearest to x/y; exact *)
HostRem(x, y) ==
  CASE IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) -> NanN
    [] IsInf(y) -> x
    [] IsZero(x) -> ZeroN
    [] OTHER ->
         LET e  == Min2(x.e, y.e)
             mx == BShl(x.m, x.e - e)
             my == BShl(y.m, y.e - e)
             qr == BDivMod(mx, my)
             c  == BCmp(BShl(qr[2], 1), my)
         IN  IF c > 0 \/ (c = 0 /\ ~BEven(qr[1]))
             THEN RealN(1 - x.s, BSub(my, qr[2]), e)
             ELSE RealN(x.s, qr[2], e)

(***************************************************************************)
(* The types                                                               *)
(***************************************************************************)
Tof(K) == [eb |-> K.eb, fb |-> K.fb, dn |-> K.dn]
Fof(K) == [n |-> K.n, es |-> K.es,
           sp |-> CASE K.sp = 0 -> "nan" [] K.sp = 1 -> "inf" [] OTHER -> "naninf"]
Hof(K) == IF K.k = "ie" THEN Tof(K) ELSE IF K.hb = 32 THEN F32 ELSE F64
PatW(v) == <<v[1], Tail(v)>>

ValueOf(K, v) ==
  CASE K.k = "any" -> IDecodeD(Tof(K), v)
    [] K.k = "f16" -> IDecode(F16, v)
    [] K.k = "pf"  -> Decode(Fof(K), PatW(v))
    [] K.k = "ie"  -> IDecode(Tof(K), v)
HostOf(K, v) == TruncFloatN(Hof(K), ValueOf(K, v))
IsMinusZero(K, v) ==
  CASE K.k = "any" -> IMag(Tof(K), v) = <<>> /\ v # <<>>
    [] K.k = "f16" -> IMag(F16, v) = <<>> /\ v # <<>>
    [] K.k = "ie"  -> IMag(Tof(K), v) = <<>> /\ v # <<>>
    [] OTHER -> FALSE

WordIs(T, w, x) == LET y == IDecode(T, w) IN SameN(y, x)
(* r is what the number x becomes in the type *)
BackOK(K, r, x) ==
  CASE K.k = "any" -> \/ IPackD(Tof(K), r, x)
                      \* a word of a format without denormals that reads as zero
                      \/ K.dn = 0 /\ IsZero(IDecodeD(Tof(K), r)) /\ (IsZero(x) \/ (IsReal(x) /\ CmpN(AbsN(x), IMinNormal(Tof(K))) < 0))
    [] K.k = "f16" -> IF K.rne = 1 THEN WordIs(F16, r, NearN(F16, x)) ELSE IPackOK(F16, r, x)
    [] K.k = "ie"  -> WordIs(Tof(K), r, NearN(Tof(K), x))
    [] K.k = "pf"  -> IsPat(Fof(K), PatW(r)) /\ PackOK(Fof(K), PatW(r), x)

(* the infinity of a division by a zero written with a minus sign may have either sign *)
DivBackOK(K, x, y, r, negzero) ==
  LET z == HostDiv(Hof(K), x, y)
  IN  BackOK(K, r, z) \/ (negzero /\ IsInf(z) /\ BackOK(K, r, NegN(z)))

NegOK(K, a, r) ==
  CASE K.k \in {"any", "ie"} -> r = (IF ISign(Tof(K), a) = 1 THEN IMag(Tof(K), a) ELSE BAdd(a, BPow2(K.eb + K.fb)))
    [] K.k = "f16" -> r = (IF ISign(F16, a) = 1 THEN IMag(F16, a) ELSE BAdd(a, BPow2(15)))
    [] K.k = "pf"  -> PatW(r) = NegP(Fof(K), PatW(a))
AbsOK(K, a, r) ==
  CASE K.k \in {"any", "ie"} -> r = IMag(Tof(K), a)
    [] K.k = "f16" -> r = IMag(F16, a)
    [] K.k = "pf"  -> PatW(r) = AbsP(Fof(K), PatW(a))

(* == != < <= > >= packed as bits; the mask says which the type offers *)
CmpBitsOK(mask, x, y, r) ==
  LET u == IsNaN(x) \/ IsNaN(y)
      c == IF u THEN 2 ELSE CmpN(x, y)
      want == <<c = 0, c # 0, c = -1, c = -1 \/ c = 0, c = 1, c = 1 \/ c = 0>>
  IN  \A i \in 1..6 : Bit(mask, i - 1) => Bit(r, i - 1) = want[i]

PickOK(K, a, b, r, sign) ==                  \* min: sign 1, max: sign -1
  LET x == ValueOf(K, a)
      y == ValueOf(K, b)
  IN  /\ r = a \/ r = b
      /\ (~IsNaN(x) /\ ~IsNaN(y)) =>
           LET v == ValueOf(K, r)
           IN  sign * CmpN(v, x) <= 0 /\ sign * CmpN(v, y) <= 0

(* 2^x in the host and truncated; a relative 2^-20 is left to the C library *)
FExp2OK(K, x, r) ==
  LET T    == Tof(K)
      q    == IMag(T, r)
      pos  == ISign(T, r) = 0
      one  == BShl(BOfInt(IBias(T)), T.fb)
      int(i) == RealN(0, BOfInt(i), 0)
      t    == BTz(x.m)
      k    == -(x.e + t)
      j    == (IF x.s = 1 THEN -1 ELSE 1) * BToInt(BShr(x.m, t))
      q20  == BPow2(20)
      Below(v) == IsZero(v) \/ CmpPow(v.m, v.e, k, j) <= 0 \/ CmpPow(BMul(v.m, BSub(q20, BOne)), v.e - 20, k, j) <= 0
      Above(v) == ~IsZero(v) /\ (CmpPow(v.m, v.e, k, j) > 0 \/ CmpPow(BMul(v.m, BAdd(q20, BOne)), v.e - 20, k, j) > 0)
  IN  CASE IsNaN(x) -> IIsNaN(T, r)
        [] IsInf(x) -> IF x.s = 0 THEN IIsInf(T, r) /\ pos ELSE q = <<>>
        [] IsZero(x) -> pos /\ q = one
        [] x.s = 0 /\ CmpN(x, int(128)) >= 0 -> pos /\ IIsInf(T, r)
        [] x.s = 0 /\ CmpN(x, int(IBias(T) + 1)) >= 0 -> pos /\ q = IMaxMag(T)
        [] x.s = 1 /\ CmpN(AbsN(x), int(IBias(T) + T.fb)) >= 0 -> q = <<>>
        [] x.s = 0 /\ BBitLen(x.m) + x.e <= -T.fb -> pos /\ q = one
        [] x.s = 1 /\ BBitLen(x.m) + x.e <= -T.fb - 1 -> pos /\ (q = BSub(one, BOne) \/ (BBitLen(x.m) + x.e <= -20 /\ q = one))
        [] k <= 0 -> BackOK(K, r, RealN(0, BOne, (IF x.s = 1 THEN -1 ELSE 1) * BToInt(FloorMag(x))))
        [] OTHER -> /\ pos /\ BCmp(q, IMaxMag(T)) <= 0
                    /\ Below(IMagReal(T, 0, q))
                    /\ (q = IMaxMag(T) \/ Above(IMagReal(T, 0, BAdd(q, BOne))))

(***************************************************************************)
(* Compare m*2^e, raised to 2^k, with 2^j, in 128 bits: the power is       *)
(* rounded up or down at every step.                                       *)
(***************************************************************************)
RECURSIVE PowCmp(_, _, _, _, _)
PowCmp(m, e, k, j, up) ==
  LET lead == BBitLen(m) + e - 1
      jd   == IF k <= 30 THEN j \div Pow2Int(k) ELSE IF j >= 0 THEN 0 ELSE -1     \* floor of j/2^k
  IN  IF k = 0 THEN MagCmp(m, e, BOne, j)
      ELSE IF lead > jd THEN 1
      ELSE IF lead < jd THEN -1
      ELSE LET q == BMul(m, m)
               s == Max2(0, BBitLen(q) - 128)
           IN  PowCmp(IF s = 0 THEN q ELSE IF up THEN BAdd(BShr(q, s), BOne) ELSE BShr(q, s), 2 * e + s, k - 1, j, up)
(* r is the number of the format nearest to 2^x; a relative 2^-tol is left *)
(* to the C library                                                        *)
NearExp2OK(K, x, r, tol) ==
  LET T    == Tof(K)
      q    == IMag(T, r)
      int(i) == RealN(0, BOfInt(i), 0)
      one  == BShl(BOfInt(IBias(T)), T.fb)
      t    == BTz(x.m)
      k    == Max2(0, -(x.e + t))
      mag  == IF x.e + t <= 0 THEN BShr(x.m, t) ELSE BShl(BShr(x.m, t), x.e + t)
      j    == (IF x.s = 1 THEN -1 ELSE 1) * BToInt(mag)
      big  == BPow2(tol)
      Low(v)  == PowCmp(BMul(v.m, BSub(big, BOne)), v.e - tol, k, j, FALSE) <= 0
      High(v) == PowCmp(BMul(v.m, BAdd(big, BOne)), v.e - tol, k, j, TRUE) >= 0
  IN  CASE IsNaN(x) -> IIsNaN(T, r)
        [] IsInf(x) -> IF x.s = 0 THEN r = IInfMag(T) ELSE q = <<>>
        [] IsZero(x) -> r = one
        [] x.s = 0 /\ CmpN(x, int(IBias(T) + 1)) >= 0 -> r = IInfMag(T)
        [] x.s = 1 /\ CmpN(AbsN(x), int(IBias(T) + T.fb + 1)) >= 0 -> q = <<>>
        [] BBitLen(x.m) + x.e < -T.fb - 5 -> r = one
        [] OTHER -> /\ ISign(T, r) = 0 /\ BCmp(q, IInfMag(T)) <= 0
                    /\ (q = <<>> \/ Low(IMid(T, BSub(q, BOne))))
                    /\ (q = IInfMag(T) \/ High(IMid(T, q)))

(* numeric_limits of a binary format: digits, decimal digits, exponents     *)
(* (of the power of two itself or one more, as the standard counts them)   *)
FLimitsOK(K, r) ==
  LET T == Tof(K)
      b == IBias(T)
  IN  /\ r[1] = 1 /\ r[2] = 1 /\ r[3] = 0 /\ r[4] = 0 /\ r[5] = 2
      /\ r[6] = T.fb + 1 /\ r[7] = (T.fb * 30103) \div 100000
      /\ r[8] \in {1 - b, 2 - b} /\ r[9] = -(((b - 1) * 30103) \div 100000)
      /\ r[10] \in {b, b + 1} /\ r[11] = ((b + 1) * 30103) \div 100000
      /\ r[12] = 1 /\ r[13] = 1 /\ r[14] = 1 /\ r[15] = 1 /\ r[16] = 1 /\ r[17] = 0

FConstOK(K, name, r) ==
  IF K.k = "pf" THEN ConstOK(Fof(K), name, PatW(r))
  ELSE LET T == IF K.k = "f16" THEN F16 ELSE Tof(K)
       IN  CASE name = "zero" -> r = <<>>
             [] name = "default" -> IMag(T, r) = <<>>
             [] name = "one"  -> SameN(IDecode(T, r), OneN)
             [] name = "two"  -> SameN(IDecode(T, r), TwoN)
             [] name = "pinf" -> r = IInfMag(T)
             [] name = "ninf" -> r = BAdd(IInfMag(T), BPow2(T.eb + T.fb))
             [] name = "nan"  -> IIsNaN(T, r)
             [] name = "max"  -> r = IMaxMag(T)
             [] name = "lowest" -> r = BAdd(IMaxMag(T), BPow2(T.eb + T.fb))
             [] name = "min"  -> r = BPow2(T.fb)
             [] name = "afterone" -> r = BAdd(BShl(BOfInt(IBias(T)), T.fb), BOne)
             [] name = "dmin" -> r = BOne
             [] name = "epsilon" -> SameN(IDecode(T, r), RealN(0, BOne, -T.fb))
=============================================================================
