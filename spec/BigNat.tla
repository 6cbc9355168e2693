------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size.                                            *)
(*                                                                         *)
(* TLC's integers have 32 bits; the exact results of posit arithmetic have *)
(* hundreds.  A natural is the sequence of its limbs, base 2^15, least     *)
(* significant first, without leading (that is, trailing) zero limbs:      *)
(* zero is <<>>.  Every operator below is defined here; the Java class     *)
(* java/BigNatOverrides.java evaluates the same operators faster, and      *)
(* BigNatTest.tla is evaluated with and without it to compare the two.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB   == 15
Base == 32768

Pow2Int(k) == 2 ^ k                       \* k < 31

(* drop leading zero limbs *)
RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

BZero == <<>>
BOne  == <<1>>

RECURSIVE BOfInt(_)
BOfInt(i) == IF i = 0 THEN <<>> ELSE <<i % Base>> \o BOfInt(i \div Base)

(* only for naturals below 2^31 *)
RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * BToInt(Tail(a))

RECURSIVE BitLenInt(_)
BitLenInt(i) == IF i = 0 THEN 0 ELSE 1 + BitLenInt(i \div 2)

BBitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * LB + BitLenInt(a[Len(a)])

(* -1, 0 or 1 *)
RECURSIVE BCmpLimbs(_, _, _)
BCmpLimbs(a, b, i) == IF i = 0 THEN 0
                      ELSE IF a[i] < b[i] THEN -1
                      ELSE IF a[i] > b[i] THEN 1
                      ELSE BCmpLimbs(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpLimbs(a, b, Len(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN  <<t % Base>> \o BAddFrom(a, b, i + 1, t \div Base)
BAdd(a, b) == BAddFrom(a, b, 1, 0)

(* a - b, for a >= b *)
RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Limb(a, i) - Limb(b, i) - c
       IN  <<(t + Base) % Base>> \o BSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
BSub(a, b) == BNorm(BSubFrom(a, b, 1, 0))

(* a times one limb d, plus carry c *)
RECURSIVE BMulLimb(_, _, _, _)
BMulLimb(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c
       IN  <<t % Base>> \o BMulLimb(a, d, i + 1, t \div Base)

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE BAdd(BMulLimb(a, b[j], 1, 0), <<0>> \o BMulFrom(a, b, j + 1))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BNorm(BMulFrom(a, b, 1))

(* a * 2^k *)
BShl(a, k) == IF a = <<>> THEN a
              ELSE [i \in 1..(k \div LB) |-> 0] \o BNorm(BMulLimb(a, Pow2Int(k % LB), 1, 0))

(* floor(a / 2^k) *)
BShr(a, k) ==
  LET w == k \div LB
      r == k % LB
  IN  IF w >= Len(a) THEN <<>>
      ELSE BNorm([i \in 1..(Len(a) - w) |->
                   (a[i + w] \div Pow2Int(r))
                   + (Limb(a, i + w + 1) % Pow2Int(r)) * Pow2Int(LB - r)])

(* a mod 2^k *)
BLow(a, k) ==
  LET w == k \div LB
      r == k % LB
  IN  IF w >= Len(a) THEN a
      ELSE BNorm([i \in 1..(w + 1) |-> IF i <= w THEN a[i] ELSE a[i] % Pow2Int(r)])

BPow2(k) == BShl(BOne, k)

(* number of trailing zero bits of a # 0 *)
RECURSIVE TzInt(_)
TzInt(i) == IF i % 2 = 1 THEN 0 ELSE 1 + TzInt(i \div 2)
RECURSIVE BTz(_)
BTz(a) == IF a[1] = 0 THEN LB + BTz(Tail(a)) ELSE TzInt(a[1])

RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN BOne
              ELSE LET h == BPow(a, k \div 2)
                       q == BMul(h, h)
                   IN  IF k % 2 = 0 THEN q ELSE BMul(q, a)

(* quotient and remainder of a by b # 0: b * 2^i is taken off for i = k..0 *)
RECURSIVE BDivRec(_, _, _, _)
BDivRec(a, b, i, q) ==
  IF i < 0 THEN <<q, a>>
  ELSE LET t == BShl(b, i)
       IN  IF BCmp(a, t) >= 0 THEN BDivRec(BSub(a, t), b, i - 1, BAdd(q, BPow2(i)))
           ELSE BDivRec(a, b, i - 1, q)
BDivMod(a, b) == BDivRec(a, b, BBitLen(a) - BBitLen(b), <<>>)
BDiv(a, b) == BDivMod(a, b)[1]
BMod(a, b) == BDivMod(a, b)[2]

(* the integer part of the square root: bits from the top *)
RECURSIVE BSqrtRec(_, _, _)
BSqrtRec(a, i, r) ==
  IF i < 0 THEN r
  ELSE LET t == BAdd(r, BPow2(i))
       IN  BSqrtRec(a, i - 1, IF BCmp(BMul(t, t), a) <= 0 THEN t ELSE r)
BSqrt(a) == BSqrtRec(a, BBitLen(a) \div 2, <<>>)
=============================================================================
