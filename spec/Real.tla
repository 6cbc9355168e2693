-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Exact numbers.  A magnitude is a pair [m, e] standing for m * 2^e, m a  *)
(* BigNat.  A number is a record                                           *)
(*    [t |-> "zero"]                                                       *)
(*    [t |-> "nan"]                                                        *)
(*    [t |-> "inf", s |-> 0..1]                                            *)
(*    [t |-> "real", s |-> 0..1, m |-> BigNat # 0, e |-> Int]              *)
(* Quotients are not dyadic, so a positive rational is a numerator and a   *)
(* denominator magnitude; comparisons multiply across.                     *)
(***************************************************************************)
EXTENDS BigNat

ZeroN == [t |-> "zero"]
NanN  == [t |-> "nan"]
InfN(s) == [t |-> "inf", s |-> s]
RealN(s, m, e) == IF m = <<>> THEN ZeroN ELSE [t |-> "real", s |-> s, m |-> m, e |-> e]

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* compare m1*2^e1 with m2*2^e2: -1, 0, 1 *)
MagCmp(m1, e1, m2, e2) ==
  IF m1 = <<>> \/ m2 = <<>> THEN BCmp(m1, m2)
  ELSE LET b1 == BBitLen(m1) + e1
           b2 == BBitLen(m2) + e2
       IN  IF b1 < b2 THEN -1
           ELSE IF b1 > b2 THEN 1
           ELSE IF e1 = e2 THEN BCmp(m1, m2)
           ELSE IF e1 > e2 THEN BCmp(BShl(m1, e1 - e2), m2)
           ELSE BCmp(m1, BShl(m2, e2 - e1))

(* exact sum of two numbers that are zero or real *)
NegN(x) == IF x.t = "real" \/ x.t = "inf" THEN [x EXCEPT !.s = 1 - @] ELSE x
AbsN(x) == IF x.t = "real" \/ x.t = "inf" THEN [x EXCEPT !.s = 0] ELSE x

SumN(x, y) ==
  IF x.t = "zero" THEN y
  ELSE IF y.t = "zero" THEN x
  ELSE LET e  == Min2(x.e, y.e)
           mx == BShl(x.m, x.e - e)
           my == BShl(y.m, y.e - e)
       IN  IF x.s = y.s THEN RealN(x.s, BAdd(mx, my), e)
           ELSE LET c == BCmp(mx, my)
                IN  IF c = 0 THEN ZeroN
                    ELSE IF c > 0 THEN RealN(x.s, BSub(mx, my), e)
                    ELSE RealN(y.s, BSub(my, mx), e)

(* exact product of two numbers that are zero or real *)
MulN(x, y) ==
  IF x.t = "zero" \/ y.t = "zero" THEN ZeroN
  ELSE RealN((x.s + y.s) % 2, BMul(x.m, y.m), x.e + y.e)

ScaleN(x, k) == IF x.t = "real" THEN [x EXCEPT !.e = @ + k] ELSE x

(* order of two numbers, each zero, real or signed infinity: -1, 0, 1 *)
SignN(x) == IF x.t = "zero" THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
CmpN(x, y) ==
  LET sx == SignN(x)
      sy == SignN(y)
  IN  IF sx < sy THEN -1
      ELSE IF sx > sy THEN 1
      ELSE IF sx = 0 THEN 0
      ELSE IF x.t = "inf" /\ y.t = "inf" THEN 0
      ELSE IF x.t = "inf" THEN sx
      ELSE IF y.t = "inf" THEN -sx
      ELSE sx * MagCmp(x.m, x.e, y.m, y.e)

SameN(x, y) == x.t = y.t /\ CASE x.t = "real" -> x.s = y.s /\ MagCmp(x.m, x.e, y.m, y.e) = 0
                              [] x.t = "inf" -> x.s = y.s
                              [] OTHER -> TRUE

(* the integer part, toward zero, of a real: sign and BigNat *)
FloorMag(x) == IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BShr(x.m, -x.e)
=============================================================================
