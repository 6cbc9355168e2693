-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* Binary floating point formats with eb exponent and fb fraction bits     *)
(* (float, double, half, and the small formats the library emulates).  A   *)
(* word is a BigNat of 1+eb+fb bits.                                       *)
(***************************************************************************)
EXTENDS Real

IBias(T)   == Pow2Int(T.eb - 1) - 1
ISign(T, w) == BToInt(BShr(w, T.eb + T.fb))
IMag(T, w)  == BLow(w, T.eb + T.fb)
IInfMag(T)  == BShl(BSub(BPow2(T.eb), BOne), T.fb)
IMaxMag(T)  == BSub(IInfMag(T), BOne)

(* the value of magnitude q as if the exponent range had no end *)
IMagReal(T, s, q) ==
  LET raw == BToInt(BShr(q, T.fb))
      f   == BLow(q, T.fb)
  IN  IF raw = 0 THEN RealN(s, f, 1 - IBias(T) - T.fb)
      ELSE RealN(s, BAdd(BPow2(T.fb), f), raw - IBias(T) - T.fb)

IDecode(T, w) ==
  LET s == ISign(T, w)
      q == IMag(T, w)
      c == BCmp(q, IInfMag(T))
  IN  IF c = 0 THEN InfN(s)
      ELSE IF c > 0 THEN NanN
      ELSE IMagReal(T, s, q)

(* compare the value of magnitude q with m*2^e/d, d # 0 *)
ICmpQ(T, q, m, e, d) ==
  LET v == IMagReal(T, 0, q)
  IN  IF v.t = "zero" THEN -1
      ELSE MagCmp(IF d = BOne THEN v.m ELSE BMul(v.m, d), v.e, m, e)

(* w is the truncation toward zero of the nonzero real x; beyond the       *)
(* largest finite word, the largest finite word; below the smallest        *)
(* denormal, a zero                                                        *)
ITruncOK(T, w, x) ==
  LET q == IMag(T, w)
  IN  /\ (q = <<>> \/ ISign(T, w) = x.s)
      /\ BCmp(q, IMaxMag(T)) <= 0
      /\ (q = <<>> \/ ICmpQ(T, q, x.m, x.e, BOne) <= 0)
      /\ (q = IMaxMag(T) \/ ICmpQ(T, BAdd(q, BOne), x.m, x.e, BOne) > 0)

IIsNaN(T, w) == BCmp(IMag(T, w), IInfMag(T)) > 0
IIsInf(T, w) == IMag(T, w) = IInfMag(T)

(* packing a number, truncating *)
IPackOK(T, w, x) ==
  CASE x.t = "zero" -> IMag(T, w) = <<>>
    [] x.t = "nan"  -> IIsNaN(T, w)
    [] x.t = "inf"  -> IIsInf(T, w) /\ ISign(T, w) = x.s
    [] OTHER        -> ITruncOK(T, w, x)

(* either neighbour of x; out of range as truncation.  ovf: infinity is    *)
(* also allowed beyond the largest finite word                             *)
IFaithfulOK(T, w, x, ovf) ==
  \/ ITruncOK(T, w, x)
  \/ LET q == IMag(T, w)
     IN  /\ ISign(T, w) = x.s
         /\ q # <<>>
         /\ BCmp(q, IMaxMag(T)) <= 0
         /\ ICmpQ(T, q, x.m, x.e, BOne) > 0
         /\ ICmpQ(T, BSub(q, BOne), x.m, x.e, BOne) < 0
  \/ /\ ovf
     /\ IIsInf(T, w) /\ ISign(T, w) = x.s
     /\ ICmpQ(T, IMaxMag(T), x.m, x.e, BOne) < 0

(***************************************************************************)
(* Round to nearest, ties to even, of the positive rational m*2^e/d: the   *)
(* word lies between the midpoints to its neighbours.                      *)
(***************************************************************************)
IMid(T, q) ==                                \* midpoint of q and q+1
  LET a == IMagReal(T, 0, q)
      b == IMagReal(T, 0, BAdd(q, BOne))
  IN  ScaleN(SumN(a, b), -1)
CmpMid(T, q, m, e, d) ==                     \* m*2^e/d against the midpoint
  LET v == IMid(T, q) IN MagCmp(m, e, IF d = BOne THEN v.m ELSE BMul(v.m, d), v.e)
BEven(q) == q = <<>> \/ q[1] % 2 = 0

INearestMagOK(T, q, m, e, d) ==
  /\ BCmp(q, IInfMag(T)) <= 0
  /\ \/ q = <<>>
     \/ LET c == CmpMid(T, BSub(q, BOne), m, e, d) IN c > 0 \/ (c = 0 /\ BEven(q))
  /\ \/ q = IInfMag(T)
     \/ LET c == CmpMid(T, q, m, e, d) IN c < 0 \/ (c = 0 /\ BEven(q))

INearestOKQ(T, w, s, m, e, d) ==
  /\ INearestMagOK(T, IMag(T, w), m, e, d)
  /\ (IMag(T, w) = <<>> \/ ISign(T, w) = s)

INearestOK(T, w, x) ==
  CASE x.t = "zero" -> IMag(T, w) = <<>>
    [] x.t = "nan"  -> IIsNaN(T, w)
    [] x.t = "inf"  -> IIsInf(T, w) /\ ISign(T, w) = x.s
    [] OTHER        -> INearestOKQ(T, w, x.s, x.m, x.e, BOne)

F32 == [eb |-> 8, fb |-> 23]
F64 == [eb |-> 11, fb |-> 52]
F16 == [eb |-> 5, fb |-> 10]
=============================================================================
