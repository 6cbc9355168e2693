------------------------------- MODULE CallsB --------------------------------
(***************************************************************************)
(* The bit helpers.  Words are BigNats; p holds the word size and the      *)
(* parameters of the helper.                                               *)
(*   clz, lz64  zeros above the leading one                                *)
(*   get        the s bits from bit o                                      *)
(*   part       a with the s bits from bit o replaced by the low bits of b *)
(*   mask       k ones                                                     *)
(*   abs        absolute value of a two's complement number                *)
(*   cast       the low p1 bits moved to the top of a p2 bit word          *)
(*   fbits      the word of a float (zeros without sign, any NaN)          *)
(***************************************************************************)
EXTENDS Unp, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

GetB(a, o, s) == BLow(BShr(a, o), s)
CallOK(row, i) ==
  LET p == row.p
      a == row.a[i]
      r == row.r[i]
  IN CASE row.o \in {"clz", "lz64"} -> r = BOfInt(p[1] - BBitLen(a))
       [] row.o = "get"  -> r = GetB(a, p[2], p[3])
       [] row.o = "part" -> r = BAdd(BSub(a, BShl(GetB(a, p[2], p[3]), p[2])), BShl(BLow(row.b[i], p[3]), p[2]))
       [] row.o = "mask" -> r = BSub(BPow2(BToInt(a)), BOne)
       [] row.o = "abs"  -> r = (IF BBitLen(a) = p[1] THEN BSub(BPow2(p[1]), a) ELSE a)
       [] row.o = "cast" -> LET v == BLow(a, p[1])
                            IN  r = (IF p[1] > p[2] THEN BShr(v, p[1] - p[2]) ELSE BShl(v, p[2] - p[1]))
       [] row.o = "fbits" -> IF IIsNaN(F32, a) THEN IIsNaN(F32, r)
                             ELSE IF IMag(F32, a) = <<>> THEN r = <<>> ELSE r = a

RowBad(k)  == LET row == Trace[k] IN {i \in 1..Len(row.r) : ~CallOK(row, i)}
RowLen(k)  == Len(Trace[k].r)
RowName(k) == Trace[k].o
NRows      == Len(Trace)

VARIABLES l, bad, calls
Loop == INSTANCE TraceLoop
Spec == Loop!Spec
Accepted == Loop!Accepted
=============================================================================
