--------------------------------- MODULE Unp ---------------------------------
(***************************************************************************)
(* The unpacked form: sign, exponent and a fraction word of ft bits (the   *)
(* leading one is not stored), or zero, NaN, signed infinity.  It is what  *)
(* every conversion and every arithmetic operation of a posit goes through *)
(* and is itself offered to users.                                         *)
(*                                                                         *)
(* An unpacked number is written <<type, sign, exponent, limbs...>>.       *)
(***************************************************************************)
EXTENDS Ops, Ieee

(* well formed: the fraction fits its word *)
UnpWF(ft, v) == v[1] \in 0..3 /\ v[2] \in 0..1 /\ (v[1] = 0 => BBitLen(RestFrom(v, 4)) <= ft)

SigBits(x) == BBitLen(x.m) - BTz(x.m)
(* the k leading bits of a number *)
TruncSig(x, k) ==
  IF ~IsReal(x) THEN x
  ELSE LET d == BBitLen(x.m) - k
       IN  IF d <= 0 THEN x ELSE RealN(x.s, BShr(x.m, d), x.e + d)

SgnProd(x, y) == (x.s + y.s) % 2

(* |a - b| <= c, for numbers zero or real *)
Within(a, b, c) == CmpN(AbsN(SumN(a, NegN(b))), c) <= 0

(***************************************************************************)
(* Conversions: truncation to the fraction word, and from it               *)
(***************************************************************************)
(* formats without denormals (dn = 0) read and write those as zero *)
IDecodeD(T, w) ==
  IF T.dn = 0 /\ BShr(IMag(T, w), T.fb) = <<>> THEN ZeroN ELSE IDecode(T, w)
IMinNormal(T) == RealN(0, BOne, 1 - IBias(T))
IPackD(T, w, x) ==
  IF T.dn = 0 /\ IsReal(x) /\ CmpN(AbsN(x), IMinNormal(T)) < 0
  THEN IMag(T, w) = <<>> ELSE IPackOK(T, w, x)

FromFloatOK(ft, T, w, r) == UnpWF(ft, r) /\ SameN(UnpN(ft, r), TruncSig(IDecodeD(T, w), ft + 1))
ToFloatU(ft, T, v, w)   == IPackD(T, w, UnpN(ft, v))

(* fixed point with n bits, f of them fraction; v = <<sign, limbs...>> *)
FixN(v, f) == RealN(v[1], Tail(v), -f)
FromFixOK(ft, f, v, r) == UnpWF(ft, r) /\ SameN(UnpN(ft, r), TruncSig(FixN(v, f), ft + 1))
FixOutOK(n, f, x, r) ==
  LET p == <<r[1], Tail(r)>>
      hi == BSub(BPow2(n - 1), BOne)
  IN  IF ~IsReal(x) THEN p = ZeroP
      ELSE LET q == FloorMag(ScaleN(x, f))
           IN  IF q = <<>> THEN p = ZeroP
               ELSE IF x.s = 0 THEN p = <<0, IF BCmp(q, hi) > 0 THEN hi ELSE q>>
               ELSE p = <<1, IF BCmp(q, BPow2(n - 1)) > 0 THEN BPow2(n - 1) ELSE q>>
ToFixOK(ft, n, f, v, r) == FixOutOK(n, f, UnpN(ft, v), r)

(***************************************************************************)
(* Arithmetic.  The result is the exact one whenever it and the operands   *)
(* leave the guard bits of the fraction word free, and otherwise within a  *)
(* few units of its last bit.                                              *)
(***************************************************************************)
UF == [sp |-> "naninf"]                       \* signed infinities, NaN

UAddOK(ft, x, y, r) ==
  LET z == AddN(UF, x, y)
  IN  IF ~(IsReal(x) /\ IsReal(y)) THEN SameN(r, z)
      ELSE LET ml == Max2(Lead(x), Lead(y))
               fit == Trail(x) >= ml - (ft - 2) /\ Trail(y) >= ml - (ft - 2)
           IN  /\ IsZero(r) \/ IsReal(r)
               /\ IF fit THEN SameN(r, z)
                  ELSE /\ Within(r, z, RealN(0, BOne, ml - (ft - 3)))
                       \* the magnitude of a sum of like signs never grows
                       /\ x.s = y.s => CmpN(AbsN(r), AbsN(z)) <= 0

UMulOK(ft, x, y, r) ==
  LET z == MulSpecialN(x, y)
  IN  IF ~(IsReal(x) /\ IsReal(y)) THEN SameN(r, z)
      ELSE /\ IsReal(r) /\ r.s = z.s
           /\ CmpN(AbsN(r), AbsN(z)) <= 0
           /\ Within(r, z, ScaleN(AbsN(z), -(ft - 3)))
           /\ (SigBits(x) <= ft /\ SigBits(y) <= ft /\ SigBits(z) <= ft - 1) => SameN(r, z)

(* r against x/y: |r| * |y| against |x| *)
UDivOK(ft, x, y, r) ==
  IF ~(IsReal(x) /\ IsReal(y)) THEN SameN(r, DivSpecialN(x, y))
  ELSE /\ IsReal(r) /\ r.s = SgnProd(x, y)
       /\ LET p == AbsN(MulN(r, y))
              a == AbsN(x)
          IN  /\ Within(p, a, ScaleN(a, -(ft - 3)))
              \* operands that lose nothing: the ft+1 leading bits of the quotient
              /\ (SigBits(x) <= ft /\ SigBits(y) <= ft - 1) =>
                   /\ CmpN(p, a) <= 0
                   /\ CmpN(AbsN(MulN(SumN(AbsN(r), RealN(0, BOne, Lead(r) - ft)), y)), a) > 0
UInvOK(ft, x, r) == UDivOK(ft, OneN, x, r)

UEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ SameN(x, y)
=============================================================================
