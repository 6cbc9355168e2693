-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The Machine with two registers, explored exhaustively for small         *)
(* formats: what the properties promise must follow from the specification *)
(* that the real code is compared with.                                    *)
(***************************************************************************)
EXTENDS Machine, FiniteSets, TLC

CONSTANTS MaxN, MaxEs                 \* formats 3..MaxN bits, 0..MaxEs exponent bits

Formats == [n : 3..MaxN, es : 0..MaxEs, sp : {"nan", "inf", "naninf"}]
(* with both infinities there must be room for a finite number *)
Sane(F) == F.sp = "naninf" => F.n >= 4

Patterns(F) == {Pat(i) : i \in (-(2^(F.n - 1)))..(2^(F.n - 1) - 1)}

VARIABLES F, x, y, op
vars == <<F, x, y, op>>

Init == /\ F \in {G \in Formats : Sane(G)}
        /\ x = ZeroP /\ y = ZeroP /\ op = "init"

Ops1 == Consts \cup {"neg", "abs", "inv", "half", "twice", "next", "prev"}
Unary  == \E o \in Ops1 : x' \in Results(F, o, x, x) /\ op' = "op" /\ UNCHANGED <<F, y>>
Binary == \E o \in BinaryOps : x' \in Results(F, o, x, y) /\ op' = "op" /\ UNCHANGED <<F, y>>
Swap   == x' = y /\ y' = x /\ op' = "op" /\ UNCHANGED F
Next   == Unary \/ Binary \/ Swap
Spec   == Init /\ [][Next]_vars

(* all pairs, whether or not the machine gets there *)
InitAll == /\ F \in {G \in Formats : Sane(G)}
           /\ x \in Patterns(F) /\ y = ZeroP /\ op = "init"
Pair    == op = "init" /\ y' \in Patterns(F) /\ op' = "pair" /\ UNCHANGED <<F, x>>
SpecAll == InitAll /\ [][Pair]_vars

X == Decode(F, x)
Y == Decode(F, y)
IsFin(v) == IsZero(v) \/ IsReal(v)

(***************************************************************************)
(* Decoding                                                                *)
(***************************************************************************)
Closure     == IsPat(F, x) /\ IsPat(F, y)
RoundTrip   == Encode(F, X) = x
OneOne      == x # y => ~SameN(X, Y)
PartsJoin   == IsReal(X) => LET q == MagParts(F, x[2])
                            IN  /\ q.k * 2^F.es + q.ex = q.scale
                                /\ q.ex \in 0..(2^F.es - 1)
                                /\ q.fb >= 0 /\ BCmp(q.f, BPow2(q.fb)) < 0
FunctionIsRelation(o) ==
  LET R == Results(F, o, x, y)
  IN  /\ R # {}
      /\ R = {p \in Patterns(F) : ResultOK(F, 32, o, x, y, x, p)}

(***************************************************************************)
(* Rounding: the chosen posit is adjacent to the exact value, never zero,  *)
(* never special                                                           *)
(***************************************************************************)
SumBracket ==
  (IsFin(X) /\ IsFin(Y)) =>
    LET z == SumN(X, Y)
    IN  \A p \in Results(F, "add", x, y) :
          /\ Finite(F, p)
          /\ IsZero(z) = (p = ZeroP)
          /\ IsReal(z) => \/ SameN(Decode(F, p), z)
                          \/ p \in {MinPosP(F), NegP(F, MinPosP(F)), MaxPosP(F), LowestP(F)}
                          \/ CmpN(Decode(F, PrevP(F, p)), z) < 0 /\ CmpN(z, Decode(F, NextP(F, p))) < 0
ProductBracket ==
  (IsReal(X) /\ IsReal(Y)) =>
    LET z == MulN(X, Y)
        p == MulP(F, x, y)
    IN  /\ Finite(F, p) /\ p # ZeroP
        /\ p[1] = (x[1] + y[1]) % 2
        /\ (CmpN(AbsN(Decode(F, p)), AbsN(z)) <= 0 \/ p[2] = BOne)
(* the quotient times the divisor does not exceed the dividend *)
QuotientBracket ==
  (IsReal(X) /\ IsReal(Y)) =>
    LET p == DivP(F, x, y)
    IN  /\ Finite(F, p) /\ p # ZeroP
        /\ p[1] = (x[1] + y[1]) % 2
        /\ (CmpN(AbsN(MulN(Decode(F, p), Y)), AbsN(X)) <= 0 \/ p[2] = BOne)

(***************************************************************************)
(* Algebra                                                                 *)
(***************************************************************************)
AddCommutes == AddSet(F, x, y) = AddSet(F, y, x)
AddZero     == AddSet(F, x, ZeroP) = {x}
AddMirror   == F.sp # "naninf" \/ IsFin(X) =>
                 AddSet(F, NegP(F, x), NegP(F, y)) = {NegP(F, p) : p \in AddSet(F, x, y)}
SubIsAddNeg == SubSet(F, x, y) = AddSet(F, x, NegP(F, y))
SubSelf     == IsFin(X) => SubSet(F, x, x) = {ZeroP}
(* a sum is at least as large as either of two nonnegative operands *)
AddGrows    == (IsFin(X) /\ IsFin(Y) /\ x[1] = 0 /\ y[1] = 0) =>
                 \A p \in AddSet(F, x, y) : CmpN(Decode(F, p), X) >= 0
MulCommutes == MulP(F, x, y) = MulP(F, y, x)
MulOne      == MulP(F, x, OneP(F)) = x
MulMirror   == (IsFin(X) /\ IsFin(Y)) => MulP(F, NegP(F, x), y) = NegP(F, MulP(F, x, y))
MulZero     == IsFin(X) => MulP(F, x, ZeroP) = ZeroP
MulMono     == (IsFin(X) /\ IsFin(Y) /\ y[1] = 0) =>
                 CmpN(Decode(F, MulP(F, x, y)), Decode(F, MulP(F, NextP(F, x), y))) <= 0
DivOne      == DivP(F, x, OneP(F)) = x
DivSelf     == IsReal(X) => DivP(F, x, x) = OneP(F)
DivMirror   == (IsReal(X) /\ IsReal(Y)) => DivP(F, x, NegP(F, y)) = NegP(F, DivP(F, x, y))
(* powers of two invert exactly, away from the ends *)
InvOfPower  == (IsReal(X) /\ X.m = BPow2(BTz(X.m))) =>
                 LET p == InvP(F, x)
                 IN  \/ p[2] \in {MaxMag(F), BOne}
                     \/ SameN(MulN(Decode(F, p), X), OneN)
NanAbsorbs  == (IsNaN(X) \/ IsNaN(Y)) =>
                 \A o \in {"add", "sub", "mul", "div"} : Results(F, o, x, y) = {NanP(F)}
InfRules    == (F.sp = "naninf" /\ IsInf(X) /\ IsReal(Y)) =>
                 /\ AddSet(F, x, y) = {x} /\ SubSet(F, y, x) = {NegP(F, x)}
                 /\ MulP(F, x, y) = InfP(F, (x[1] + y[1]) % 2)
                 /\ DivP(F, x, y) = InfP(F, (x[1] + y[1]) % 2)
                 /\ DivP(F, y, x) = ZeroP
                 /\ SubSet(F, x, x) = {NanP(F)} /\ AddSet(F, x, x) = {x}
                 /\ DivP(F, x, x) = NanP(F)
                 /\ MulP(F, x, ZeroP) = NanP(F)
DivByZero   == DivP(F, ZeroP, ZeroP) = NanP(F)

(***************************************************************************)
(* Order                                                                   *)
(***************************************************************************)
IntOf(p)    == IF p[1] = 1 THEN -BToInt(p[2]) ELSE BToInt(p[2])
OrderIsInt  == (~IsNaN(X) /\ ~IsNaN(Y) /\ Ordered(F, X, Y)) =>
                 CmpN(X, Y) = (IF IntOf(x) < IntOf(y) THEN -1 ELSE IF IntOf(x) > IntOf(y) THEN 1 ELSE 0)
Trichotomy  == (~IsNaN(X) /\ ~IsNaN(Y) /\ Ordered(F, X, Y)) =>
                 Cardinality({i \in 1..3 : <<LtB(X, Y), EqB(F, X, Y), LtB(Y, X)>>[i]}) = 1
NanUnordered == IsNaN(X) => ~LtB(X, Y) /\ ~LtB(Y, X) /\ ~LeB(X, Y) /\ ~EqB(F, X, Y)
NextPrev    == (Finite(F, x) /\ x # MaxPosP(F)) =>
                 /\ PrevP(F, NextP(F, x)) = x
                 /\ CmpN(X, Decode(F, NextP(F, x))) < 0
                 /\ ~(Finite(F, y) /\ CmpN(X, Y) < 0 /\ CmpN(Y, Decode(F, NextP(F, x))) < 0)

(***************************************************************************)
(* Signs and scaling                                                       *)
(***************************************************************************)
NegTwice  == NegP(F, NegP(F, x)) = x
AbsSign   == IsReal(X) => ~IsNaN(Decode(F, AbsP(F, x))) /\ SameN(Decode(F, AbsP(F, x)), AbsN(X))
HalfTwice == (IsReal(X) /\ SameN(Decode(F, HalfP(F, x)), ScaleN(X, -1))) => TwiceP(F, HalfP(F, x)) = x
TwiceIsAdd == IsReal(X) => AddSet(F, x, x) = {TwiceP(F, x)}

(***************************************************************************)
(* The relation and the function agree on everything                       *)
(***************************************************************************)
RelAdd  == FunctionIsRelation("add") /\ FunctionIsRelation("sub")
RelMul  == FunctionIsRelation("mul")
RelDiv  == FunctionIsRelation("div") /\ FunctionIsRelation("inv")
RelOne  == \A o \in {"neg", "abs", "half", "twice", "next", "prev"} : FunctionIsRelation(o)
RelMin  == FunctionIsRelation("min") /\ FunctionIsRelation("max")
=============================================================================
