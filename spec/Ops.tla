--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* What every operation of the library may return.                        *)
(*                                                                         *)
(* XxxN is the exact result of an operation on numbers (special values     *)
(* included); XxxOK(F, a, .., r) says whether the pattern r is allowed as  *)
(* the result of the operation on the patterns a, ..                       *)
(***************************************************************************)
EXTENDS Posit

(* one of the operands is neither zero nor real *)
IsNaN(x)  == x.t = "nan"
IsInf(x)  == x.t = "inf"
IsZero(x) == x.t = "zero"
IsReal(x) == x.t = "real"

(***************************************************************************)
(* Addition.  With unsigned infinity ("inf") there is no opposite infinity *)
(* and no NaN, so everything with infinity is infinity.                    *)
(***************************************************************************)
AddN(F, x, y) ==
  CASE IsNaN(x) \/ IsNaN(y) -> NanN
    [] IsInf(x) /\ IsInf(y) -> IF F.sp = "inf" \/ x.s = y.s THEN x ELSE NanN
    [] IsInf(x) -> x
    [] IsInf(y) -> y
    [] OTHER -> SumN(x, y)

SameSignXY(x, y) == IsReal(x) /\ IsReal(y) /\ x.s = y.s

(* same sign: exact truncation; opposite signs: one of the two neighbours *)
AddValOK(F, x, y, r) ==
  LET z == AddN(F, x, y)
  IN  IF IsReal(z) /\ IsReal(x) /\ IsReal(y) /\ x.s # y.s
      THEN FaithfulOK(F, r, z) ELSE PackOK(F, r, z)

(***************************************************************************)
(* Multiplication, division, inverse                                       *)
(***************************************************************************)
MulSpecialN(x, y) ==
  CASE IsNaN(x) \/ IsNaN(y) -> NanN
    [] IsInf(x) /\ IsZero(y) -> NanN
    [] IsZero(x) /\ IsInf(y) -> NanN
    [] IsInf(x) \/ IsInf(y) -> InfN((x.s + y.s) % 2)
    [] OTHER -> MulN(x, y)

MulValOK(F, x, y, r) == PackOK(F, r, MulSpecialN(x, y))

(* for special operands only *)
DivSpecialN(x, y) ==
  CASE IsNaN(x) \/ IsNaN(y) -> NanN
    [] IsZero(x) /\ IsZero(y) -> NanN
    [] IsInf(x) /\ IsInf(y) -> NanN
    [] IsZero(x) -> ZeroN
    [] IsInf(y) -> ZeroN
    [] IsZero(y) -> InfN(x.s)
    [] OTHER -> InfN((x.s + y.s) % 2)       \* infinity / real

DivValOK(F, x, y, r) ==
  IF IsReal(x) /\ IsReal(y)
  THEN TruncOKQ(F, r, (x.s + y.s) % 2, x.m, x.e - y.e, y.m)
  ELSE PackOK(F, r, DivSpecialN(x, y))

OneN == RealN(0, BOne, 0)
InvValOK(F, x, r) == DivValOK(F, OneN, x, r)

(***************************************************************************)
(* Halving and doubling: exact scaling, then truncation                    *)
(***************************************************************************)
HalfValOK(F, x, r)  == PackOK(F, r, ScaleN(x, -1))
TwiceValOK(F, x, r) == PackOK(F, r, ScaleN(x, 1))

(***************************************************************************)
(* The operations as functions on patterns, for the generated behaviours.  *)
(* Where the library may choose (addition of opposite signs) the result is *)
(* a set.                                                                  *)
(***************************************************************************)
FaithfulSet(F, x) ==
  LET p == TruncP(F, x.s, x.m, x.e, BOne)
  IN  {q \in {p, <<p[1], SuccMag(p[2])>>} : FaithfulOK(F, q, x)}

AddSet(F, a, b) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
      z == AddN(F, x, y)
  IN  IF IsReal(z) /\ IsReal(x) /\ IsReal(y) /\ x.s # y.s
      THEN FaithfulSet(F, z) ELSE {Encode(F, z)}
SubSet(F, a, b) == AddSet(F, a, NegP(F, b))
MulP(F, a, b) == Encode(F, MulSpecialN(Decode(F, a), Decode(F, b)))
DivP(F, a, b) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
  IN  IF IsReal(x) /\ IsReal(y)
      THEN TruncP(F, (x.s + y.s) % 2, x.m, x.e - y.e, y.m)
      ELSE Encode(F, DivSpecialN(x, y))
InvP(F, a)   == DivP(F, OneP(F), a)
HalfP(F, a)  == Encode(F, ScaleN(Decode(F, a), -1))
TwiceP(F, a) == Encode(F, ScaleN(Decode(F, a), 1))

(***************************************************************************)
(* Order.  NaN is unordered and different from everything.  The unsigned   *)
(* infinity of "inf" equals itself; its place in the order is not part of  *)
(* the promise.                                                            *)
(***************************************************************************)
EqB(F, x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE ELSE SameN(x, y)
Ordered(F, x, y) == ~(F.sp = "inf" /\ (IsInf(x) \/ IsInf(y)))
LtB(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE ELSE CmpN(x, y) < 0
LeB(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE ELSE CmpN(x, y) <= 0

(* bits: == != < <= > >= packed as 1 2 4 8 16 32 *)
Bit(b, i) == (b \div Pow2Int(i)) % 2 = 1
CompareOK(F, x, y, r) ==
  /\ r \in 0..63
  /\ Bit(r, 0) = EqB(F, x, y)
  /\ Bit(r, 1) = ~EqB(F, x, y)
  /\ Ordered(F, x, y) =>
       /\ Bit(r, 2) = LtB(x, y)
       /\ Bit(r, 3) = LeB(x, y)
       /\ Bit(r, 4) = LtB(y, x)
       /\ Bit(r, 5) = LeB(y, x)

(* std::min and std::max return the smaller/larger operand *)
MinOK(F, a, b, r) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
  IN  IF IsNaN(x) \/ IsNaN(y) \/ ~Ordered(F, x, y) THEN r = a \/ r = b
      ELSE r = (IF CmpN(x, y) <= 0 THEN a ELSE b)
MaxOK(F, a, b, r) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
  IN  IF IsNaN(x) \/ IsNaN(y) \/ ~Ordered(F, x, y) THEN r = a \/ r = b
      ELSE r = (IF CmpN(x, y) >= 0 THEN a ELSE b)

(* next/prev move to the adjacent finite posit and stay at the ends; *)
(* specials stay                                                      *)
SuccP(p) == IF p[1] = 0 THEN <<0, SuccMag(p[2])>>
            ELSE IF p[2] = BOne THEN ZeroP ELSE <<1, PredMag(p[2])>>
PredP(p) == IF p[2] = <<>> THEN <<1, BOne>>
            ELSE IF p[1] = 1 THEN <<1, SuccMag(p[2])>>
            ELSE <<0, PredMag(p[2])>>
Finite(F, p) == LET x == Decode(F, p) IN IsZero(x) \/ IsReal(x)
NextP(F, p) == IF ~Finite(F, p) \/ p = MaxPosP(F) THEN p ELSE SuccP(p)
PrevP(F, p) == IF ~Finite(F, p) \/ p = LowestP(F) THEN p ELSE PredP(p)

(***************************************************************************)
(* Fused operations.  They round once, but through an unpacked number with *)
(* ft fraction bits: each product is truncated to ft significant bits, and *)
(* each addition drops what lies below ft-1 bits under the larger operand. *)
(* FusedN returns [lo, hi]: the exact result is perturbed by at most `err` *)
(* before the final rounding; err is 0 when everything fits.               *)
(***************************************************************************)
(* leading bit position of a real *)
Lead(x) == BBitLen(x.m) + x.e - 1
(* lowest set bit position *)
Trail(x) == BTz(x.m) + x.e

(* an accumulator: exact value v (zero/real), error bound as a dyadic number *)
AccOf(v) == [v |-> v, err |-> ZeroN]
TruncErr(x, ft) ==                    \* error of keeping ft-1 bits below the lead
  IF ~IsReal(x) THEN ZeroN
  ELSE IF Trail(x) >= Lead(x) - (ft - 2) THEN ZeroN
  ELSE RealN(0, BOne, Lead(x) - (ft - 2))
AccMul(x, y, ft) == LET p == MulN(x, y) IN [v |-> p, err |-> TruncErr(p, ft)]

(* upper bound of |acc| *)
AccTop(a) == SumN(AbsN(a.v), a.err)
AccAdd(a, b, ft) ==
  LET v   == SumN(a.v, b.v)
      ta  == AccTop(a)
      tb  == AccTop(b)
      big == IF CmpN(ta, tb) >= 0 THEN ta ELSE tb
      exactfit == /\ IsZero(a.err) /\ IsZero(b.err)
                  /\ \/ IsZero(a.v) \/ IsZero(b.v)
                     \/ /\ Trail(a.v) >= Lead(big) - (ft - 2)
                        /\ Trail(b.v) >= Lead(big) - (ft - 2)
      e0  == SumN(a.err, b.err)
  IN  [v |-> v,
       err |-> IF exactfit \/ IsZero(big) THEN e0
               ELSE SumN(e0, RealN(0, BOne, Lead(big) - (ft - 3)))]

(* r is allowed for a value v known up to err *)
AccOK(F, r, a) ==
  IF IsZero(a.err) THEN PackOK(F, r, a.v)
  ELSE LET lo == SumN(a.v, NegN(a.err))
           hi == SumN(a.v, a.err)
           x  == Decode(F, r)
       \* the packed value of some y with lo <= y <= hi
       IN  /\ Finite(F, r)
           /\ \/ CmpN(lo, x) <= 0 /\ CmpN(x, hi) <= 0
              \/ IsReal(lo) /\ TruncOK(F, r, lo)
              \/ IsReal(hi) /\ TruncOK(F, r, hi)

(* special operands: exactly as product then sum *)
AllFinite(xs) == \A i \in 1..Len(xs) : IsZero(xs[i]) \/ IsReal(xs[i])

FmaOK(F, ft, a, b, c, r) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
      z == Decode(F, c)
  IN  IF AllFinite(<<x, y, z>>)
      THEN AccOK(F, r, AccAdd(AccMul(x, y, ft), AccOf(z), ft))
      ELSE PackOK(F, r, AddN(F, MulSpecialN(x, y), z))

(* a*b + c*d, or a*b - c*d with sg = 1, rounded once *)
Mul2OK(F, ft, a, b, c, d, sg, r) ==
  LET x == Decode(F, a)
      y == Decode(F, b)
      z == Decode(F, c)
      w == IF sg = 1 THEN NegN(Decode(F, d)) ELSE Decode(F, d)
  IN  IF AllFinite(<<x, y, z, w>>)
      THEN AccOK(F, r, AccAdd(AccMul(x, y, ft), AccMul(z, w, ft), ft))
      ELSE PackOK(F, r, AddN(F, MulSpecialN(x, y), MulSpecialN(z, w)))

RECURSIVE DotAcc(_, _, _, _, _)
DotAcc(xs, ys, ft, i, acc) ==
  IF i > Len(xs) THEN acc
  ELSE DotAcc(xs, ys, ft, i + 1, AccAdd(acc, AccMul(xs[i], ys[i], ft), ft))

RECURSIVE DotSpecial(_, _, _, _, _)
DotSpecial(F, xs, ys, i, acc) ==
  IF i > Len(xs) THEN acc
  ELSE DotSpecial(F, xs, ys, i + 1, AddN(F, acc, MulSpecialN(xs[i], ys[i])))

DotOK(F, ft, ps, qs, r) ==
  LET xs == [i \in 1..Len(ps) |-> Decode(F, ps[i])]
      ys == [i \in 1..Len(qs) |-> Decode(F, qs[i])]
  IN  IF Len(xs) = 0 THEN r = ZeroP
      ELSE IF AllFinite(xs) /\ AllFinite(ys)
      THEN AccOK(F, r, DotAcc(xs, ys, ft, 2, AccMul(xs[1], ys[1], ft)))
      ELSE PackOK(F, r, DotSpecial(F, xs, ys, 1, ZeroN))

(* unpacked numbers are written <<type, sign, exponent, limbs...>> with    *)
(* type 0 regular, 1 infinity, 2 NaN, 3 zero; ft fraction bits             *)
RestFrom(v, k) == SubSeq(v, k, Len(v))
UnpN(ft, v) ==
  CASE v[1] = 0 -> RealN(v[2], BAdd(BPow2(ft), RestFrom(v, 4)), v[3] - ft)
    [] v[1] = 1 -> InfN(v[2])
    [] v[1] = 2 -> NanN
    [] OTHER    -> ZeroN

(***************************************************************************)
(* The fast functions, as functions of the n-bit pattern u in 0..2^n-1     *)
(* read from the bottom of the posit circle                                *)
(***************************************************************************)
CirclePos(F, p) == IF p[1] = 1 THEN BSub(TopMag(F), p[2]) ELSE BAdd(TopMag(F), p[2])
SigmoidP(F, p)  == <<0, BShr(CirclePos(F, p), 2)>>
SoftplusP(F, p) == <<0, BShr(CirclePos(F, p), 1)>>
OneMinusOK(F, p, r) ==                       \* p in [0,1]
  LET x == Decode(F, p)
      y == SumN(OneN, NegN(x))
  IN  IF F.es = 0 THEN SameN(Decode(F, r), y)
      ELSE r = <<0, BSub(OneP(F)[2], p[2])>>

(* x(1-x) on the unit range *)
UnitDeltaOK(F, p, r) ==
  LET q == <<0, BSub(OneP(F)[2], p[2])>>
  IN  MulValOK(F, Decode(F, p), Decode(F, q), r)

(***************************************************************************)
(* 2^x, truncated.  x = s * m * 2^e.  For an integer x the power is a      *)
(* posit or out of range.  Otherwise it is irrational; it is compared with *)
(* the posits v around it exactly, by raising both to the power 2^-e:      *)
(*      v <= 2^x   iff   v^(2^-e) <= 2^(s*m)                               *)
(* The code computes 2^x in floating point, so v may be off by a relative  *)
(* 2^-20 before truncation.                                                *)
(***************************************************************************)
RECURSIVE SqrTimes(_, _)
SqrTimes(a, k) == IF k = 0 THEN a ELSE SqrTimes(BMul(a, a), k - 1)
(* compare m*2^e, raised to 2^k, with 2^j *)
CmpPow(m, e, k, j) == LET p == SqrTimes(m, k) IN MagCmp(p, e * Pow2Int(k), BOne, j)

Exp2Real(F, x, r) ==                        \* x not an integer, neither tiny nor huge
  LET t  == BTz(x.m)
      k  == -(x.e + t)
      j  == (IF x.s = 1 THEN -1 ELSE 1) * BToInt(BShr(x.m, t))
      lo == MagReal(F, 0, r[2])
      hi == MagReal(F, 0, SuccMag(r[2]))
      q20 == BPow2(20)
      Below(v) == \/ CmpPow(v.m, v.e, k, j) <= 0
                  \/ CmpPow(BMul(v.m, BSub(q20, BOne)), v.e - 20, k, j) <= 0
      Above(v) == \/ CmpPow(v.m, v.e, k, j) > 0
                  \/ CmpPow(BMul(v.m, BAdd(q20, BOne)), v.e - 20, k, j) > 0
  IN  /\ r[1] = 0 /\ r[2] # <<>> /\ BCmp(r[2], MaxMag(F)) <= 0
      /\ (r[2] = BOne \/ Below(lo))
      /\ (r[2] = MaxMag(F) \/ Above(hi))

Exp2OK(F, x, r) ==
  LET one == OneP(F)
      up  == SumN(Decode(F, NextP(F, one)), NegN(OneN))
      dn  == SumN(OneN, NegN(Decode(F, PrevP(F, one))))
      lim == RealN(0, BOfInt(MagParts(F, MaxMag(F)).scale + 1), 0)
      host(b) == RealN(0, BOfInt(b), 0)
  IN  CASE IsNaN(x) -> r = NanP(F)
        \* an infinity without sign can be taken for either
        [] IsInf(x) -> CASE F.sp = "inf" -> r \in {InfP(F, 0), ZeroP} [] x.s = 0 -> r = InfP(F, 0) [] OTHER -> r = ZeroP
        [] IsZero(x) -> r = one
        \* out of range: saturates, unless the float overflows or vanishes
        [] x.s = 0 /\ CmpN(x, lim) >= 0 -> r = MaxPosP(F) \/ (CmpN(x, host(128)) >= 0 /\ r = InfP(F, 0))
        [] x.s = 1 /\ CmpN(AbsN(x), lim) >= 0 -> r = MinPosP(F) \/ (CmpN(AbsN(x), host(126)) > 0 /\ r = ZeroP)
        \* 1 <= 2^x <= 1+x and 1-|x| <= 2^-|x| <= 1
        [] x.s = 0 /\ CmpN(x, up) < 0 -> r = one
        [] x.s = 1 /\ CmpN(AbsN(x), dn) <= 0 -> r = PrevP(F, one) \/ (Lead(x) < -20 /\ r = one)
        [] Trail(x) >= 0 -> TruncOKQ(F, r, 0, BOne, (IF x.s = 1 THEN -1 ELSE 1) * BToInt(FloorMag(x)), BOne)
        [] OTHER -> Exp2Real(F, x, r)

(* gauss2(x, mu, sigma) = 2^-(((x-mu)/sigma)^2 / 2), every step rounded    *)
GaussOK(F, x, mu, sigma, r) ==
  \E d \in SubSet(F, x, mu) :
    LET q == DivP(F, d, sigma)
    IN  Exp2OK(F, Decode(F, NegP(F, HalfP(F, MulP(F, q, q)))), r)

(***************************************************************************)
(* Constants                                                               *)
(***************************************************************************)
Representable(F, x) == LET p == Encode(F, x) IN SameN(Decode(F, p), x)
TwoN  == RealN(0, BOne, 1)
HalfN == RealN(0, BOne, -1)
ConstOK(F, name, r) ==
  CASE name \in {"zero", "default"} -> r = ZeroP
    [] name = "one"       -> r = OneP(F)
    [] name = "mone"      -> r = NegP(F, OneP(F))
    [] name = "two"       -> Representable(F, TwoN) => r = Encode(F, TwoN)
    [] name = "onehalf"   -> Representable(F, HalfN) => r = Encode(F, HalfN)
    [] name = "max"       -> r = MaxPosP(F)
    [] name = "min"       -> r = MinPosP(F)
    [] name = "lowest"    -> r = LowestP(F)
    [] name = "nan"       -> r = NanP(F)
    [] name = "pinf"      -> r = InfP(F, 0)
    [] name = "ninf"      -> r = InfP(F, 1)
    [] name = "afterone"  -> r = NextP(F, OneP(F))
    [] name = "beforeone" -> r = PrevP(F, OneP(F))
    [] name = "epsilon"   -> AddValOK(F, Decode(F, NextP(F, OneP(F))), NegN(OneN), r)

(* <<specialized, signed, integer, exact, radix, has infinity, has NaN, min
     exponent, max exponent, the same two again, n, es, with NaN>> *)
Flag(b) == IF b THEN 1 ELSE 0
MaxScale(F) == MagParts(F, MaxMag(F)).scale
MinScale(F) == MagParts(F, BOne).scale
(* the exponent of the regime of the largest posit *)
LimitsOK(F, r) ==
  /\ r[1] = 1 /\ r[2] = 1 /\ r[3] = 0 /\ r[4] = 0 /\ r[5] = 2
  /\ r[6] = Flag(F.sp # "nan") /\ r[7] = Flag(F.sp # "inf")
  /\ r[8] = MinScale(F) /\ r[10] = r[8]
  /\ r[9] = (IF F.sp = "naninf" THEN F.n - 3 ELSE F.n - 2) * Pow2Int(F.es) /\ r[11] = r[9]
  /\ r[12] = F.n /\ r[13] = F.es /\ r[14] = Flag(F.sp # "inf")
  \* decimal digits every number near one keeps; no signalling NaN, not IEC 559, no wrap round, no traps
  /\ Len(r) > 14 => /\ r[15] = ((F.n - 3) * 30103) \div 100000
                    /\ r[16] = 0 /\ r[17] = 0 /\ r[18] = 0 /\ r[19] = 0

(***************************************************************************)
(* Reductions: a sum, product or scalar product of several posits is the   *)
(* result of SOME order and grouping of the operations, each rounded to    *)
(* the format.                                                             *)
(***************************************************************************)
(* every number an addition may return *)
AddResults(F, x, y) ==
  LET z == AddN(F, x, y)
      p == Encode(F, z)
      q == <<p[1], BAdd(p[2], BOne)>>
  IN  IF IsReal(z) /\ IsReal(x) /\ IsReal(y) /\ x.s # y.s
      THEN {Decode(F, t) : t \in {u \in {p, q} : FaithfulOK(F, u, z)}}
      ELSE {Decode(F, p)}

MulResults(F, x, y) == {Decode(F, Encode(F, MulSpecialN(x, y)))}

RECURSIVE AnyOrder(_, _, _, _)
AnyOrder(F, S, v, mul) ==
  LET m == CHOOSE i \in S : \A j \in S : i <= j
  IN  IF S = {m} THEN {v[m]}
      ELSE UNION {UNION {IF mul THEN MulResults(F, x, y) ELSE AddResults(F, x, y) :
                           x \in AnyOrder(F, A, v, mul), y \in AnyOrder(F, S \ A, v, mul)} :
                    A \in {B \in SUBSET S : m \in B /\ B # S}}

DecodeAll(F, ps) == [i \in 1..Len(ps) |-> Decode(F, ps[i])]
SumOK(F, ps, r)  == Decode(F, r) \in AnyOrder(F, 1..Len(ps), DecodeAll(F, ps), FALSE)
ProdOK(F, ps, r) == Decode(F, r) \in AnyOrder(F, 1..Len(ps), DecodeAll(F, ps), TRUE)
DotsOK(F, ps, qs, r) ==
  LET xs == DecodeAll(F, ps)
      ys == DecodeAll(F, qs)
  IN  Decode(F, r) \in AnyOrder(F, 1..Len(ps), [i \in 1..Len(ps) |-> CHOOSE z \in MulResults(F, xs[i], ys[i]) : TRUE], FALSE)

(* the smallest / largest; with a NaN among them any of them               *)
LeastOK(F, ps, r, sg) ==
  LET xs == DecodeAll(F, ps)
      y  == Decode(F, r)
  IN  /\ \E i \in 1..Len(ps) : ps[i] = r
      /\ (\A i \in 1..Len(ps) : ~IsNaN(xs[i]) /\ Ordered(F, xs[i], y)) => \A i \in 1..Len(ps) : sg * CmpN(y, xs[i]) <= 0

(* integers so small that every partial sum, in any order, is a posit: the *)
(* result is the exact one                                                 *)
IntOfN(x) == IF IsZero(x) THEN 0 ELSE (IF x.s = 1 THEN -1 ELSE 1) * BToInt(IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BShr(x.m, -x.e))
IsIntN(x) == IsZero(x) \/ (IsReal(x) /\ Lead(x) <= 12 /\ CmpN(x, RealN(x.s, FloorMag(x), 0)) = 0)
AbsI(i) == IF i < 0 THEN -i ELSE i
RECURSIVE SumI(_, _)
SumI(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumI(s, k - 1)
RECURSIVE Log2I(_)
Log2I(i) == IF i <= 1 THEN 0 ELSE 1 + Log2I(i \div 2)
ExactDotOK(F, ps, qs, r) ==
  LET xs == DecodeAll(F, ps)
      ys == DecodeAll(F, qs)
      n  == Len(ps)
      pr == [i \in 1..n |-> IntOfN(xs[i]) * IntOfN(ys[i])]
      s  == SumI([i \in 1..n |-> AbsI(pr[i])], n)
      k  == Log2I(s)
      t  == SumI(pr, n)
  IN  ((\A i \in 1..n : IsIntN(xs[i]) /\ IsIntN(ys[i]))
        /\ MagParts(F, Encode(F, RealN(0, BPow2(k), 0))[2]).fb >= k)
      => CmpN(Decode(F, r), IF t = 0 THEN ZeroN ELSE RealN(IF t < 0 THEN 1 ELSE 0, BOfInt(AbsI(t)), 0)) = 0

(* Eigen's traits: <<complex, integer, signed, initialise, digits10, scalar is its own real type>> *)
TraitsOK(F, r) == r[1] = 0 /\ r[2] = 0 /\ r[3] = 1 /\ r[4] = 1 /\ r[5] = ((F.n - 3) * 30103) \div 100000 /\ r[6] = 1
=============================================================================
