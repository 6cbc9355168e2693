-------------------------------- MODULE Posit --------------------------------
(***************************************************************************)
(* The posit number format, as the library promises it to its users.       *)
(*                                                                         *)
(* A format F is a record [n, es, sp]: total bits, exponent bits, and what *)
(* the special patterns mean:                                              *)
(*   "nan"     the top pattern 10..0 is NaN, no infinities                 *)
(*   "inf"     the top pattern is one unsigned infinity, no NaN            *)
(*   "naninf"  the top pattern is NaN and its two neighbours are the       *)
(*             signed infinities                                           *)
(* A pattern is the integer the n bits denote in two's complement, written *)
(* <<s, m>>: sign and BigNat magnitude.                                    *)
(***************************************************************************)
EXTENDS Real

Pat(i)     == IF i < 0 THEN <<1, BOfInt(-i)>> ELSE <<0, BOfInt(i)>>
PatInt(p)  == IF p[1] = 1 THEN -BToInt(p[2]) ELSE BToInt(p[2])
ZeroP      == <<0, <<>>>>

TopMag(F)  == BPow2(F.n - 1)
TopP(F)    == <<1, TopMag(F)>>
(* largest finite magnitude *)
MaxMag(F)  == BSub(TopMag(F), BOfInt(IF F.sp = "naninf" THEN 2 ELSE 1))
InfMag(F)  == BSub(TopMag(F), BOne)        \* of the signed infinities

(* the n-bit integers, in the canonical sign-extended form *)
IsPat(F, p) == \/ BCmp(p[2], TopMag(F)) < 0 /\ p # <<1, <<>>>>
               \/ p = TopP(F)

NegP(F, p) == IF p[2] = <<>> \/ p = TopP(F) THEN p ELSE <<1 - p[1], p[2]>>
AbsP(F, p) == IF p[1] = 1 THEN NegP(F, p) ELSE p
SuccMag(m) == BAdd(m, BOne)
PredMag(m) == BSub(m, BOne)

(***************************************************************************)
(* Meaning of a positive finite pattern m, 0 < m < 2^(n-1):                *)
(* regime: a run of r equal bits after the sign, ended by the opposite bit *)
(* (or the end): k = r-1 for ones, -r for zeros; then es bits of exponent, *)
(* then the fraction.  Bits beyond the end are zeros.                      *)
(* value = 2^(k*2^es + e) * 1.f                                            *)
(***************************************************************************)
MagParts(F, m) ==
  LET L    == F.n - 1
      ones == BBitLen(m) = L
      run  == IF ones THEN L - BBitLen(BSub(BSub(TopMag(F), BOne), m))
              ELSE L - BBitLen(m)
      k    == IF ones THEN run - 1 ELSE -run
      rb   == Max2(0, L - run - 1)          \* bits after the regime
      rest == BLow(m, rb)
      eb   == Min2(rb, F.es)                \* exponent bits present
      ex   == BToInt(BShr(rest, rb - eb)) * Pow2Int(F.es - eb)
      fb   == rb - eb                       \* fraction bits
  IN  [run |-> run, k |-> k, rb |-> rb, eb |-> eb, ex |-> ex, fb |-> fb,
       f |-> BLow(rest, fb), scale |-> k * Pow2Int(F.es) + ex]

MagReal(F, s, m) ==
  LET q == MagParts(F, m)
  IN  [t |-> "real", s |-> s, m |-> BAdd(BPow2(q.fb), q.f), e |-> q.scale - q.fb]

Decode(F, p) ==
  IF p[2] = <<>> THEN ZeroN
  ELSE IF p = TopP(F) THEN (IF F.sp = "inf" THEN InfN(1) ELSE NanN)
  ELSE IF F.sp = "naninf" /\ p[2] = InfMag(F) THEN InfN(p[1])
  ELSE MagReal(F, p[1], p[2])

(* The pattern of a special number *)
NanP(F)    == TopP(F)                       \* with "inf", NaN is reported as infinity
InfP(F, s) == IF F.sp = "naninf" THEN <<s, InfMag(F)>> ELSE TopP(F)

(***************************************************************************)
(* Rounding.  The library truncates: the result is the posit of largest    *)
(* magnitude not above the exact result; a nonzero exact result below the  *)
(* smallest posit gives the smallest posit, one above the largest gives    *)
(* the largest.  x is a positive rational num/den (den a BigNat, 1 for     *)
(* dyadics).                                                               *)
(***************************************************************************)
(* compare the finite magnitude q with m*2^e/d *)
CmpQ(F, q, m, e, d) ==
  LET v == MagReal(F, 0, q)
  IN  MagCmp(IF d = BOne THEN v.m ELSE BMul(v.m, d), v.e, m, e)

TruncOKQ(F, p, s, m, e, d) ==
  LET q == p[2]
  IN  /\ p[1] = s
      /\ q # <<>>
      /\ BCmp(q, MaxMag(F)) <= 0
      /\ (q = BOne \/ CmpQ(F, q, m, e, d) <= 0)
      /\ (q = MaxMag(F) \/ CmpQ(F, SuccMag(q), m, e, d) > 0)

(* p is the truncation of the nonzero real x *)
TruncOK(F, p, x) == TruncOKQ(F, p, x.s, x.m, x.e, BOne)

(* p is one of the two posits around the nonzero real x; x itself if it is *)
(* a posit; the smallest/largest posit out of range                        *)
FaithfulOK(F, p, x) ==
  \/ TruncOK(F, p, x)
  \/ /\ p[1] = x.s
     /\ BCmp(p[2], BOne) > 0
     /\ BCmp(p[2], MaxMag(F)) <= 0
     /\ CmpQ(F, p[2], x.m, x.e, BOne) > 0
     /\ CmpQ(F, PredMag(p[2]), x.m, x.e, BOne) < 0

(* p is what packing the number x must give *)
PackOK(F, p, x) ==
  CASE x.t = "zero" -> p = ZeroP
    [] x.t = "nan"  -> p = NanP(F)
    [] x.t = "inf"  -> p = InfP(F, x.s)
    [] OTHER        -> TruncOK(F, p, x)

PackFaithfulOK(F, p, x) ==
  IF x.t = "real" THEN FaithfulOK(F, p, x) ELSE PackOK(F, p, x)

(***************************************************************************)
(* The same as a function: largest magnitude not above m*2^e/d, by binary  *)
(* search over 1..MaxMag.                                                  *)
(***************************************************************************)
RECURSIVE TruncSearch(_, _, _, _, _, _)
TruncSearch(F, lo, hi, m, e, d) ==          \* lo <= answer <= hi
  IF BCmp(lo, hi) >= 0 THEN lo
  ELSE LET mid == BShr(BAdd(BAdd(lo, hi), BOne), 1)
       IN  IF CmpQ(F, mid, m, e, d) <= 0 THEN TruncSearch(F, mid, hi, m, e, d)
           ELSE TruncSearch(F, lo, PredMag(mid), m, e, d)

TruncP(F, s, m, e, d) == <<s, TruncSearch(F, BOne, MaxMag(F), m, e, d)>>

Encode(F, x) ==
  CASE x.t = "zero" -> ZeroP
    [] x.t = "nan"  -> NanP(F)
    [] x.t = "inf"  -> InfP(F, x.s)
    [] OTHER        -> TruncP(F, x.s, x.m, x.e, BOne)

(***************************************************************************)
(* Well-known patterns                                                     *)
(***************************************************************************)
OneP(F)     == <<0, BPow2(F.n - 2)>>
MinPosP(F)  == <<0, BOne>>
MaxPosP(F)  == <<0, MaxMag(F)>>
LowestP(F)  == <<1, MaxMag(F)>>
=============================================================================
