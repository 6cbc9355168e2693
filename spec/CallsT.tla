------------------------------- MODULE CallsT --------------------------------
(***************************************************************************)
(* Text: what is written to a stream for a number.                         *)
(*   tdec   the float value in decimal with p significant digits           *)
(*   traw   the pattern as a decimal integer                               *)
(*   tunp   sign, exponent and fraction of the unpacked number             *)
(* The driver only splits the text: a decimal into <<kind, sign, exponent  *)
(* of ten, digits..>>, an integer into <<0, sign, limbs..>>, the unpacked  *)
(* form into <<type, sign, exponent, limbs..>>.  k says whether the stream *)
(* kept its format.                                                        *)
(***************************************************************************)
EXTENDS Host, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Kind(i) == Trace[1].cfgs[i]

(* number of decimal digits of a natural *)
RECURSIVE Digits(_)
Digits(a) == IF a = <<>> THEN 0 ELSE 1 + Digits(BDiv(a, <<10>>))
BPow10(k) == BPow(<<10>>, k)

(* d*10^e has at most p digits and is v rounded to p digits: it is at most *)
(* half a unit of the p-th digit away                                      *)
DecimalOK(p, v, e, d) ==
  LET n  == Digits(d)
      D  == BMul(d, BPow10(p - n))
      E  == e - (p - n)
      tw == BPow2(Max2(0, -v.e))
      A  == BMul(BMul(D, BPow10(Max2(0, E))), tw)
      B  == BMul(BShl(v.m, Max2(0, v.e)), BPow10(Max2(0, -E)))
      U  == BMul(BPow10(Max2(0, E)), tw)
      df == IF BCmp(A, B) >= 0 THEN BSub(A, B) ELSE BSub(B, A)
  IN  /\ n >= 1 /\ n <= p
      /\ BCmp(BShl(df, 1), U) <= 0

TextOK(p, x, r) ==
  CASE IsNaN(x)  -> r[1] = 2
    [] IsInf(x)  -> r[1] = 1 /\ r[2] = x.s
    [] IsZero(x) -> r[1] = 0 /\ RestFrom(r, 4) = <<>>
    [] OTHER     -> r[1] = 0 /\ r[2] = x.s /\ DecimalOK(p, x, r[3], RestFrom(r, 4))

(***************************************************************************)
(* listposits: a listing of every pattern.  In signed order the finite     *)
(* numbers, most negative first; in unsigned order every pattern.          *)
(***************************************************************************)
ModPow(p, n) == IF p[1] = 1 /\ p[2] # <<>> THEN BSub(BPow2(n), p[2]) ELSE p[2]
SIntOf(i) == <<IF i < 0 THEN 1 ELSE 0>> \o BOfInt(IF i < 0 THEN -i ELSE i)
ListCount(F, unsignedOrder) == IF unsignedOrder = 1 THEN 2^F.n ELSE IF F.sp = "naninf" THEN 2^F.n - 3 ELSE 2^F.n - 1
Regime(F, p)  == MagParts(F, p[2]).k
RegimeN(F, p) == RealN(0, BOne, Regime(F, p) * Pow2Int(F.es))
HeadN(K, F, name) ==
  CASE name = "bits"   -> RealN(0, BOfInt(K.n), 0)
    [] name = "holder" -> RealN(0, BOfInt(K.h), 0)
    [] name = "es"     -> IF K.es = 0 THEN ZeroN ELSE RealN(0, BOfInt(K.es), 0)
    [] name = "half"   -> HalfN
    [] name = "twice"  -> TwoN
    [] name = "lowest" -> Decode(F, LowestP(F))
    [] name = "max"    -> Decode(F, MaxPosP(F))
NOfInt(i) == IF i = 0 THEN ZeroN ELSE RealN(IF i < 0 THEN 1 ELSE 0, BOfInt(IF i < 0 THEN -i ELSE i), 0)
ListBin(F, K, q, p, w) ==                    \* the column q as a double
  LET x == Decode(F, p)
      y == IDecode(F64, w)
  IN  CASE q = "i" -> SameN(y, RealN(p[1], p[2], 0))
        [] q = "o" -> SameN(y, RealN(0, ModPow(p, F.n), 0)) \/ SameN(y, RealN(0, ModPow(p, K.h), 0))
        [] q = "k" -> IsReal(x) => SameN(y, NOfInt(Regime(F, p)))
        [] q = "e" -> IsReal(x) => SameN(y, NOfInt(Lead(x)))
        [] q = "r" -> IsReal(x) => SameN(y, RegimeN(F, p))
        [] OTHER   -> IF IsInf(x) /\ F.sp = "inf" THEN IsInf(y) ELSE SameN(y, x)

Unsigned(K, x) == K.k = "pf" /\ K.sp = 1 /\ IsInf(x)
CallOK(row, i) ==
  LET K == Kind(row.c)
      v == IF row.o \in {"lhead", "lcount"} THEN ZeroN ELSE ValueOf(K, row.a[i])
      r == row.r[i]
  IN  /\ row.k[i] = 1
      /\ CASE row.o = "tdec" -> IF Unsigned(K, v) THEN r[1] = 1
                                ELSE TextOK(row.p, TruncFloatN(F32, v), r)
           [] row.o = "traw" -> r[1] = 0 /\ Tail(r) = row.a[i]
           \* a number, or the text form of the posit, which is that of a float
           [] row.o = "lhead" -> LET x == HeadN(K, Fof(K), row.a[i])
                                 IN  TextOK(row.p, x, r) \/ TextOK(row.p, TruncFloatN(F32, x), r)
           [] row.o = "lcount" -> r = ListCount(Fof(K), row.p)
           [] row.o = "luns" -> r[1] = 0 /\ r[2] = 0 /\ RestFrom(r, 3) \in {ModPow(PatW(row.a[i]), K.n), ModPow(PatW(row.a[i]), K.h)}
           [] row.o = "lbit" -> r[1] = K.n /\ Tail(r) = ModPow(PatW(row.a[i]), K.n)
           [] row.o = "lk"   -> IsReal(v) => (r[1] = 0 /\ Tail(r) = SIntOf(Regime(Fof(K), PatW(row.a[i]))))
           [] row.o = "lexp" -> IsReal(v) => (r[1] = 0 /\ Tail(r) = SIntOf(Lead(v)))
           [] row.o = "lreg" -> IsReal(v) => TextOK(row.p, RegimeN(Fof(K), PatW(row.a[i])), r)
           [] row.o = "lval" -> IF Unsigned(K, v) THEN r[1] = 1 ELSE TextOK(row.p, TruncFloatN(F64, v), r)
           [] row.o = "linv" -> r[1] = 0 /\ InvValOK(Fof(K), v, PatW(Tail(r)))
           [] row.o = "ltwice" -> r[1] = 0 /\ MulValOK(Fof(K), v, TwoN, PatW(Tail(r)))
           [] row.o = "lhalf" -> r[1] = 0 /\ DivValOK(Fof(K), v, TwoN, PatW(Tail(r)))
           [] row.o = "lbin" -> ListBin(Fof(K), K, row.q, PatW(row.a[i]), r)
           [] row.o = "tunp" -> IF Unsigned(K, v) THEN r[1] = 1
                                ELSE r[1] \in 0..3 /\ SameN(UnpN(row.w, r), v)

RowBad(k)  == LET row == Trace[k] IN {i \in 1..Len(row.r) : ~CallOK(row, i)}
RowLen(k)  == Len(Trace[k].r)
RowName(k) == Trace[k].o
NRows      == Len(Trace)

VARIABLES l, bad, calls
Loop == INSTANCE TraceLoop
Spec == Loop!Spec
Accepted == Loop!Accepted
=============================================================================
