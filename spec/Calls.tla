-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Recorded calls of the real library, checked against Ops.                *)
(*                                                                         *)
(* The trace is newline separated JSON.  Line 1 is [cfgs |-> <<..>>], the  *)
(* configurations; every other line is one row: an operation `o` of        *)
(* configuration `c` (an index into cfgs), its operands and the results    *)
(* the real code returned.  A row is a batch of calls: operand fields that *)
(* are written once apply to all of them.                                  *)
(***************************************************************************)
EXTENDS Ops, Ieee, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfgs  == Trace[1].cfgs
NRows == Len(Trace)

SpecName(i) == CASE i = 0 -> "nan" [] i = 1 -> "inf" [] OTHER -> "naninf"
Fmts == [i \in 1..Len(Cfgs) |-> [n |-> Cfgs[i].n, es |-> Cfgs[i].es, sp |-> SpecName(Cfgs[i].sp)]]

(* wide values are written as <<sign, limb1, limb2, ..>> *)
WPat(v) == <<v[1], Tail(v)>>
PatOf(c, v) == IF Cfgs[c].w = 1 THEN WPat(v) ELSE Pat(v)

PatsOf(c, vs) == [k \in 1..Len(vs) |-> PatOf(c, vs[k])]

IntN(v) == RealN(v[1], Tail(v), 0)          \* a native integer as a number

(* equality of numbers where the sign of an unsigned infinity is free *)
SameNumber(F, x, y) == IF F.sp = "inf" /\ IsInf(x) /\ IsInf(y) THEN TRUE ELSE SameN(x, y)

ToFloatOK(F, T, p, w) ==
  LET x == Decode(F, p)
  IN  IF IsInf(x) /\ F.sp = "inf" THEN IIsInf(T, w) ELSE IPackOK(T, w, x)

IntMaxB == BSub(BPow2(31), BOne)
ToIntOK(F, p, v) ==                          \* v = <<sign, limbs..>>, 32 bits
  LET x == Decode(F, p)
      r == <<v[1], Tail(v)>>
  IN  IF ~IsReal(x) THEN r = ZeroP
      ELSE LET q == FloorMag(x)
           IN  IF x.s = 0
               THEN r = <<0, IF BCmp(q, IntMaxB) > 0 THEN IntMaxB ELSE q>>
               ELSE IF q = <<>> THEN r = ZeroP
               ELSE r = <<1, IF BCmp(q, BPow2(31)) > 0 THEN BPow2(31) ELSE q>>

(* class predicates packed in bits:
   0 isNaN 1 isinfinity 2 iszero 3 isnegative 4 isone 5 hasNaN 6 isUnitRange *)
ClassOK(F, p, r) ==
  LET x == Decode(F, p)
  IN  /\ Bit(r, 0) = IsNaN(x)
      /\ Bit(r, 1) = IsInf(x)
      /\ Bit(r, 2) = IsZero(x)
      /\ IsReal(x) => Bit(r, 3) = (x.s = 1)
      /\ IsZero(x) => ~Bit(r, 3)
      /\ (IsInf(x) /\ F.sp = "naninf") => Bit(r, 3) = (x.s = 1)
      /\ Bit(r, 4) = (p = OneP(F))
      /\ Bit(r, 5) = (F.sp # "inf")
      /\ (IsReal(x) \/ IsZero(x)) => Bit(r, 6) = (CmpN(x, ZeroN) >= 0 /\ CmpN(x, OneN) <= 0)

(* fields of analyze(): <<nan, inf, sign, k, rs, es, fs, exp, exponent>>,  *)
(* then the limbs of the fraction left aligned in ft bits                  *)
AnalyzeOK(F, ft, p, r) ==
  LET x == Decode(F, p)
  IN  /\ (r[1] = 1) = IsNaN(x)
      /\ (r[2] = 1) = IsInf(x)
      /\ IsReal(x) =>
           LET q == MagParts(F, p[2])
           IN  /\ r[3] = x.s
               /\ r[4] = q.k
               /\ r[5] = Min2(q.run + 1, F.n - 1)
               /\ r[6] = q.eb
               /\ r[7] = q.fb
               /\ r[8] = q.ex
               /\ r[9] = q.scale
               /\ RestFrom(r, 10) = BShl(q.f, ft - q.fb)

(* unpack_low(): <<type, sign, regime, exp, fraction limbs..>>, fraction   *)
(* left aligned in h bits                                                  *)
UnpackLowOK(F, h, p, r) ==
  LET x == Decode(F, p)
  IN  CASE IsReal(x) -> LET q == MagParts(F, p[2])
                        IN  /\ r[1] = 0 /\ r[2] = x.s /\ r[3] = q.k /\ r[4] = q.ex
                            /\ RestFrom(r, 5) = BShl(q.f, h - q.fb)
        [] IsInf(x) -> r[1] = 1 /\ (F.sp = "naninf" => r[2] = x.s)
        [] IsNaN(x) -> r[1] = 2
        [] OTHER    -> r[1] = 3

(* pack_low of <<type, sign, regime, exp, fraction limbs..>> *)
LowN(F, h, v) ==
  CASE v[1] = 0 -> RealN(v[2], BAdd(BPow2(h), RestFrom(v, 5)), v[3] * Pow2Int(F.es) + v[4] - h)
    [] v[1] = 1 -> InfN(v[2])
    [] v[1] = 2 -> NanN
    [] OTHER    -> ZeroN

(* is_nan, is_infinity, is_negative (twice), has_neg_exponent: below one,  *)
(* for positive numbers                                                    *)
TabClassOK(F, p, r) ==
  LET x == Decode(F, p)
  IN  /\ Bit(r, 0) = IsNaN(x)
      /\ Bit(r, 1) = IsInf(x)
      /\ IsReal(x) => (Bit(r, 2) = (x.s = 1) /\ Bit(r, 3) = (x.s = 1))
      /\ IsZero(x) => (~Bit(r, 2) /\ ~Bit(r, 3))
      /\ (IsReal(x) /\ x.s = 0) => Bit(r, 4) = (CmpN(x, OneN) < 0)

(* the same predicates as masks of a SIMD lane: all ones or all zeros      *)
MaskOK(F, p, r) ==
  /\ \A j \in 1..4 : r[j] \in {0, 255}
  /\ LET b(j) == IF r[j] = 0 THEN 0 ELSE 1
     IN  TabClassOK(F, p, b(1) + 2 * b(2) + 12 * b(3) + 16 * b(4))

(***************************************************************************)
(* One call: the i-th of the row                                           *)
(***************************************************************************)
CallOK(row, i) ==
  LET c == row.c
      F == Fmts[c]
      h == Cfgs[c].h
      ft == Cfgs[c].ft
      R == PatOf(c, row.r[i])
      AV == PatOf(c, row.a[i])               \* vector first operand
      A == PatOf(c, row.a)                   \* scalar first operand
      B == PatOf(c, row.b[i])
  IN CASE row.o = "add"  -> AddValOK(F, Decode(F, A), Decode(F, B), R)
       [] row.o = "sub"  -> AddValOK(F, Decode(F, A), NegN(Decode(F, B)), R)
       [] row.o = "mul"  -> MulValOK(F, Decode(F, A), Decode(F, B), R)
       [] row.o = "div"  -> DivValOK(F, Decode(F, A), Decode(F, B), R)
       [] row.o = "cmp"  -> CompareOK(F, Decode(F, A), Decode(F, B), row.r[i])
       [] row.o = "min"  -> MinOK(F, A, B, R)
       [] row.o = "max"  -> MaxOK(F, A, B, R)
       [] row.o = "neg"  -> R = NegP(F, AV)
       [] row.o = "abs"  -> R = AbsP(F, AV)
       [] row.o = "inv"  -> InvValOK(F, Decode(F, AV), R)
       [] row.o = "half" -> HalfValOK(F, Decode(F, AV), R)
       [] row.o = "twice" -> TwiceValOK(F, Decode(F, AV), R)
       [] row.o = "next" -> R = NextP(F, AV)
       [] row.o = "prev" -> R = PrevP(F, AV)
       [] row.o = "same" -> R = AV
       [] row.o = "cls"  -> ClassOK(F, AV, row.r[i])
       [] row.o = "anl"  -> AnalyzeOK(F, ft, AV, row.r[i])
       [] row.o = "unpk" -> SameNumber(F, UnpN(ft, row.r[i]), Decode(F, AV))
       [] row.o = "unlo" -> UnpackLowOK(F, h, AV, row.r[i])
       [] row.o = "pack" -> PackOK(F, R, UnpN(ft, row.a[i]))
       [] row.o = "palo" -> PackOK(F, R, LowN(F, h, row.a[i]))
       [] row.o = "f32i" -> PackOK(F, R, IDecode(F32, row.a[i]))
       [] row.o = "f64i" -> PackOK(F, R, IDecode(F64, row.a[i]))
       [] row.o = "f16i" -> PackOK(F, R, IDecode(F16, row.a[i]))
       [] row.o = "inti" -> PackOK(F, R, IntN(row.a[i]))
       [] row.o = "f32o" -> ToFloatOK(F, F32, AV, row.r[i])
       [] row.o = "f64o" -> ToFloatOK(F, F64, AV, row.r[i])
       [] row.o = "f16o" -> ToFloatOK(F, F16, AV, row.r[i])
       [] row.o = "into" -> ToIntOK(F, AV, row.r[i])
       [] row.o = "fma"  -> FmaOK(F, ft, A, PatOf(c, row.b), PatOf(c, row.d[i]), R)
       [] row.o = "mm"   -> Mul2OK(F, ft, PatOf(c, row.a[i][1]), PatOf(c, row.a[i][2]),
                                   PatOf(c, row.a[i][3]), PatOf(c, row.a[i][4]), row.g, R)
       [] row.o = "dot"  -> DotOK(F, ft, [k \in 1..Len(row.a[i]) |-> PatOf(c, row.a[i][k])],
                                         [k \in 1..Len(row.b[i]) |-> PatOf(c, row.b[i][k])], R)
       [] row.o = "psig" -> R = SigmoidP(F, AV)
       [] row.o = "psof" -> R = SoftplusP(F, AV)
       [] row.o = "ur1m" -> OneMinusOK(F, AV, R)
       [] row.o = "urdp" -> UnitDeltaOK(F, AV, R)
       [] row.o = "const" -> ConstOK(F, row.n[i], R)
       [] row.o = "limits" -> LimitsOK(F, row.r[i])
       \* reductions, in any order
       [] row.o = "sum"   -> SumOK(F, PatsOf(c, row.a[i]), R)
       [] row.o = "prodv" -> ProdOK(F, PatsOf(c, row.a[i]), R)
       [] row.o = "dots"  -> DotsOK(F, PatsOf(c, row.a[i]), PatsOf(c, row.b[i]), R)
       [] row.o = "exdot" -> ExactDotOK(F, PatsOf(c, row.a[i]), PatsOf(c, row.b[i]), R)
       [] row.o = "minv"  -> LeastOK(F, PatsOf(c, row.a[i]), R, 1)
       [] row.o = "maxv"  -> LeastOK(F, PatsOf(c, row.a[i]), R, -1)
       [] row.o = "ntraits" -> TraitsOK(F, row.r[i])
       \* the tabulated types
       [] row.o = "square" -> MulValOK(F, Decode(F, AV), Decode(F, AV), R)
       [] row.o = "gauss" -> GaussOK(F, AV, PatOf(c, row.b[i]), PatOf(c, row.d[i]), R)
       [] row.o = "exp2" -> Exp2OK(F, Decode(F, AV), R)
       [] row.o = "tcmp" -> IsNaN(Decode(F, A)) \/ IsNaN(Decode(F, B)) \/ CompareOK(F, Decode(F, A), Decode(F, B), row.r[i])
       [] row.o = "tinto" -> LET x == Decode(F, AV)
                             IN  IsNaN(x) \/ IsInf(x) \/ (IsReal(x) /\ Lead(x) >= 31) \/ ToIntOK(F, AV, row.r[i])
       [] row.o = "tcls" -> TabClassOK(F, AV, row.r[i])
       [] row.o = "mask" -> MaskOK(F, AV, row.r[i])
       \* the MATLAB functions: class, complexity and dimensions of the
       \* result; a message and no result; bytes changed outside the result
       [] row.o = "shape" -> row.r[i] = row.a[i]
       [] row.o = "refuse" -> row.r[i] = <<1, 0>>
       [] row.o = "guard" -> row.r[i] = 0
       [] row.o = "uu"   -> row.r[i] = BToInt(IF AV[1] = 1 THEN BSub(BPow2(F.n), AV[2]) ELSE AV[2])

(* every posit the library hands out is a canonical pattern *)
PatResults == {"add", "sub", "mul", "div", "min", "max", "neg", "abs", "inv", "half", "twice",
               "next", "prev", "same", "pack", "palo", "f16i", "f32i", "f64i", "inti", "fma", "mm",
               "square", "exp2", "gauss", "dot", "sum", "prodv", "dots", "exdot", "minv", "maxv", "psig", "psof", "ur1m", "urdp", "const"}
CanonOK(row, i) == row.o \in PatResults => IsPat(Fmts[row.c], PatOf(row.c, row.r[i]))

RowBad(row) == {i \in 1..Len(row.r) : ~(CanonOK(row, i) /\ CallOK(row, i))}

(***************************************************************************)
(* The state machine: consume one row per step; a rejected call is         *)
(* reported and counted, and the remaining rows are still checked.         *)
(***************************************************************************)
VARIABLES l, bad, calls

Init == l = 2 /\ bad = 0 /\ calls = 0

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Consume ==
  /\ l <= NRows
  /\ LET row == Trace[l]
         B   == RowBad(row)
     IN  /\ IF B = {} THEN TRUE
            ELSE PrintT(<<"REJECT", l, MinOf(B), row.o, row.c, B>>)
         /\ bad' = bad + (IF B = {} THEN 0 ELSE 1)
         /\ calls' = calls + Len(row.r)
  /\ l' = l + 1
Next == Consume
Spec == Init /\ [][Next]_<<l, bad, calls>>

Accepted == PrintT(<<"DONE", TLCGet("stats").diameter, NRows>>)
=============================================================================
