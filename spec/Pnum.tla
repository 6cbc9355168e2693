-------------------------------- MODULE Pnum --------------------------------
(***************************************************************************)
(* The unums of scripts/punum.py: the projective reals cut by an alphabet. *)
(*                                                                         *)
(* An alphabet is an increasing sequence A of rationals <<n, d>> (BigNats) *)
(* from 1 on.  With their inverses, opposites, 0 and one infinity its      *)
(* values are the even points of a circle of 8 Len(A) points; the odd      *)
(* points are the open intervals between neighbours.  Every real belongs   *)
(* to exactly one point.  An operation on points yields the shortest arc   *)
(* <<first, last>> that covers every result of reals of its operands.      *)
(* Magnitudes are extended rationals <<n, d>>; infinity is <<1, 0>>.       *)
(***************************************************************************)
EXTENDS BigNat, Sequences

N2(A)   == 8 * Len(A)
OneI(A) == 2 * Len(A)
InfI(A) == 4 * Len(A)
Pt(A, k) == k % N2(A)

QZero == <<BZero, BOne>>
QInf  == <<BOne, BZero>>
QLe(p, q) == BCmp(BMul(p[1], q[2]), BMul(q[1], p[2])) <= 0
QEq(p, q) == BCmp(BMul(p[1], q[2]), BMul(q[1], p[2])) = 0
QMul(p, q) == <<BMul(p[1], q[1]), BMul(p[2], q[2])>>
QIsInf(q)  == q[2] = BZero
QIsZero(q) == q[1] = BZero

NegI(A, k) == Pt(A, -k)
InvI(A, k) == Pt(A, InfI(A) - k)
IsNeg(A, k) == k > InfI(A)
AbsI(A, k)  == IF IsNeg(A, k) THEN NegI(A, k) ELSE k
Exact(k)    == k % 2 = 0
IsFrac(A, k) == LET m == AbsI(A, k) IN m > 0 /\ m < OneI(A)

\* the magnitude of the even point k of 0..InfI
Mag(A, k) == IF k = 0 THEN QZero
             ELSE IF k = InfI(A) THEN QInf
             ELSE IF k >= OneI(A) THEN A[(k - OneI(A)) \div 2 + 1]
             ELSE LET q == A[(InfI(A) - k - OneI(A)) \div 2 + 1] IN <<q[2], q[1]>>

\* the point of 0..InfI with a magnitude: the last even one not above it, or the gap after that
RECURSIVE LocHalf(_, _, _, _)
LocHalf(A, q, lo, hi) == IF hi = lo + 1 THEN lo
                         ELSE LET mid == (lo + hi) \div 2
                              IN  IF QLe(Mag(A, 2 * mid), q) THEN LocHalf(A, q, mid, hi) ELSE LocHalf(A, q, lo, mid)
LocMag(A, q) == IF QIsInf(q) THEN InfI(A)
                ELSE LET j == 2 * LocHalf(A, q, 0, InfI(A) \div 2)
                     IN  IF QEq(Mag(A, j), q) THEN j ELSE j + 1

\* signed extended rationals <<sign, magnitude>>
SVal(A, k) == <<IF IsNeg(A, k) THEN 1 ELSE 0, Mag(A, AbsI(A, k))>>
Loc(A, x)  == LET m == LocMag(A, x[2]) IN IF x[1] = 1 THEN NegI(A, m) ELSE m
SSum(x, y) == LET p == x[2]
                  q == y[2]
                  a == BMul(p[1], q[2])
                  b == BMul(q[1], p[2])
                  d == BMul(p[2], q[2])
              IN  IF QIsInf(p) THEN x
                  ELSE IF QIsInf(q) THEN y
                  ELSE IF x[1] = y[1] THEN <<x[1], <<BAdd(a, b), d>>>>
                  ELSE IF BCmp(a, b) >= 0 THEN <<x[1], <<BSub(a, b), d>>>>
                  ELSE <<y[1], <<BSub(b, a), d>>>>
SMul(x, y) == <<(x[1] + y[1]) % 2, QMul(x[2], y[2])>>

\* the ends of the magnitudes of a point other than infinity
MagLo(A, k) == LET m == AbsI(A, k) IN Mag(A, IF Exact(m) THEN m ELSE m - 1)
MagHi(A, k) == LET m == AbsI(A, k) IN Mag(A, IF Exact(m) THEN m ELSE m + 1)
LowEnd(A, k)  == IF IsNeg(A, k) THEN <<1, MagHi(A, k)>> ELSE <<0, MagLo(A, k)>>
HighEnd(A, k) == IF IsNeg(A, k) THEN <<1, MagLo(A, k)>> ELSE <<0, MagHi(A, k)>>

\* the points of an interval's ends; an open end does not reach its exact point
First(A, p, open) == IF open /\ Exact(p) THEN Pt(A, p + 1) ELSE p
Last(A, p, open)  == IF open /\ Exact(p) THEN Pt(A, p - 1) ELSE p

All(A) == <<0, N2(A) - 1>>
Open(a, b) == ~(Exact(a) /\ Exact(b))

AddI(A, a, b) ==
  IF a = InfI(A) /\ b = InfI(A) THEN All(A)
  ELSE IF a = InfI(A) \/ b = InfI(A) THEN <<InfI(A), InfI(A)>>
  ELSE <<First(A, Loc(A, SSum(LowEnd(A, a), LowEnd(A, b))), Open(a, b)),
         Last(A, Loc(A, SSum(HighEnd(A, a), HighEnd(A, b))), Open(a, b))>>
SubI(A, a, b) == AddI(A, a, NegI(A, b))

MulI(A, a, b) ==
  IF (a = InfI(A) /\ b = 0) \/ (a = 0 /\ b = InfI(A)) THEN All(A)
  ELSE IF a = InfI(A) \/ b = InfI(A) THEN <<InfI(A), InfI(A)>>
  ELSE IF a = 0 \/ b = 0 THEN <<0, 0>>
  ELSE LET f == First(A, LocMag(A, QMul(MagLo(A, a), MagLo(A, b))), Open(a, b))
           t == Last(A, LocMag(A, QMul(MagHi(A, a), MagHi(A, b))), Open(a, b))
       IN  IF IsNeg(A, a) # IsNeg(A, b) THEN <<NegI(A, t), NegI(A, f)>> ELSE <<f, t>>
DivI(A, a, b) == MulI(A, a, InvI(A, b))

\* arcs: <<>> empty, <<first, last>>; all points when the arc closes
IsAll(A, w)  == w # <<>> /\ Pt(A, w[2] + 1) = w[1]
SameArc(A, w, v) == w = v \/ (IsAll(A, w) /\ IsAll(A, v))
ArcNeg(A, w) == IF w = <<>> THEN w ELSE IF IsAll(A, w) THEN All(A) ELSE <<NegI(A, w[2]), NegI(A, w[1])>>
ArcInv(A, w) == IF w = <<>> THEN w ELSE IF IsAll(A, w) THEN All(A) ELSE <<InvI(A, w[2]), InvI(A, w[1])>>
ArcNot(A, w) == IF w = <<>> THEN All(A) ELSE IF IsAll(A, w) THEN <<>> ELSE <<Pt(A, w[2] + 1), Pt(A, w[1] - 1)>>
ArcLen(A, w) == IF w = <<>> THEN 0 ELSE Pt(A, w[2] - w[1]) + 1
ArcSeq(A, w) == [i \in 1..ArcLen(A, w) |-> Pt(A, w[1] + i - 1)]
ArcSet(A, w) == {Pt(A, w[1] + i) : i \in 0..(ArcLen(A, w) - 1)}

\* which sequences are alphabets: signed rationals <<s, n, d>>
IsAlphabet(e) ==
  /\ Len(e) > 0
  /\ \E k \in 0..20 : 2^k = Len(e)
  /\ \A i \in 1..Len(e) : e[i][1] = 0
  /\ QEq(<<e[1][2], e[1][3]>>, <<BOne, BOne>>)
  /\ \A i \in 1..(Len(e) - 1) : ~QLe(<<e[i+1][2], e[i+1][3]>>, <<e[i][2], e[i][3]>>)

\* the alphabets with a name
Pow2Alphabet(n) == [i \in 1..n |-> <<BPow2(i - 1), BOne>>]
FracAlphabet(n, f) == [i \in 1..(n * f) |-> <<BShl(BOfInt(f + ((i - 1) % f)), (i - 1) \div f), BOfInt(f)>>]
P1A == Pow2Alphabet(1)
P2A == Pow2Alphabet(2)
P4A == Pow2Alphabet(4)
P8A == Pow2Alphabet(8)
P8F == FracAlphabet(8, 4)
P16F == FracAlphabet(32, 256)
=============================================================================
