------------------------------ MODULE LawsPnum -------------------------------
(***************************************************************************)
(* The unum arithmetic of Pnum explored exhaustively for small alphabets.  *)
(* Every point is sampled by rationals of a grid; the arcs must be exactly *)
(* what operations on reals of the operands reach.                         *)
(***************************************************************************)
EXTENDS Pnum, TLC

CONSTANT Deep

Alphabets == {P1A, P2A, <<<<BOne, BOne>>, <<BOfInt(3), BOfInt(2)>>>>} \cup (IF Deep THEN {P4A} ELSE {})

VARIABLES A, k, j, op
vars == <<A, k, j, op>>
Init == A \in Alphabets /\ k \in 0..(N2(A) - 1) /\ j = 0 /\ op = "init"
Pair == op = "init" /\ j' \in 0..(N2(A) - 1) /\ op' = "pair" /\ UNCHANGED <<A, k>>
Spec == Init /\ [][Pair]_vars

Q(n, d) == <<BOfInt(n), BOfInt(d)>>
\* rationals of a point: its value, or a spread of its interval
MaxE == 8
GridMag(m) == IF Exact(m) THEN {Mag(A, m)}
              ELSE LET lo == Mag(A, m - 1)
                       hi == Mag(A, m + 1)
                       mix(t) == IF QIsInf(hi) THEN <<BAdd(BMul(lo[1], BOfInt(t)), BMul(lo[2], BOfInt(16 - t))), BMul(lo[2], BOfInt(t))>>
                                 ELSE <<BAdd(BMul(BMul(lo[1], hi[2]), BOfInt(16 - t)), BMul(BMul(hi[1], lo[2]), BOfInt(t))),
                                        BMul(BMul(lo[2], hi[2]), BOfInt(16))>>
                   IN  {mix(t) : t \in 1..15}
                       \cup (IF QIsInf(hi) THEN {QMul(lo, Q(u, 1)) : u \in {17, 64, 1024}} ELSE {})
                       \cup (IF QIsZero(lo) THEN {QMul(hi, Q(1, u)) : u \in {17, 64, 1024}} ELSE {})
                       \cup (IF ~QIsZero(lo) /\ ~QIsInf(hi) THEN {QMul(lo, Q(1025, 1024)), QMul(hi, Q(1023, 1024))} ELSE {})
                       \cup (IF QIsZero(lo) THEN {QMul(hi, Q(1023, 1024))} ELSE {})
                       \cup (IF QIsInf(hi) THEN {QMul(lo, Q(1025, 1024))} ELSE {})
Grid(p) == {<<IF IsNeg(A, p) THEN 1 ELSE 0, q>> : q \in GridMag(AbsI(A, p))}
SNeg(x) == <<1 - x[1], x[2]>>
SInv(x) == <<x[1], <<x[2][2], x[2][1]>>>>

\* every rational is in the one point the specification finds for it
InPoint(x, p) == LET m == AbsI(A, p)
                     q == x[2]
                 IN  /\ m = 0 \/ m = InfI(A) \/ (x[1] = 1) = IsNeg(A, p)
                     /\ IF Exact(m) THEN QEq(Mag(A, m), q) ELSE ~QLe(q, Mag(A, m - 1)) /\ ~QLe(Mag(A, m + 1), q)
Partition == \A x \in Grid(k) : /\ Loc(A, x) = k
                                /\ {p \in 0..(N2(A) - 1) : InPoint(x, p)} = {k}

NegIsNeg == \A x \in Grid(k) : Loc(A, SNeg(x)) = NegI(A, k)
InvIsInv == \A x \in Grid(k) : Loc(A, SInv(x)) = InvI(A, k)
Involution == NegI(A, NegI(A, k)) = k /\ InvI(A, InvI(A, k)) = k /\ NegI(A, InvI(A, k)) = InvI(A, NegI(A, k))

Set(w) == ArcSet(A, w)
Regular(p) == p # InfI(A)
\* nothing outside the arc, and every point of it is the result of some reals: z = x + y with z - x in j, or z - y in k
AddCovers  == (Regular(k) /\ Regular(j)) => \A x \in Grid(k), y \in Grid(j) : Loc(A, SSum(x, y)) \in Set(AddI(A, k, j))
MulCovers  == (Regular(k) /\ Regular(j)) => \A x \in Grid(k), y \in Grid(j) : Loc(A, SMul(x, y)) \in Set(MulI(A, k, j))
AddReaches == (Regular(k) /\ Regular(j)) => \A p \in Set(AddI(A, k, j)) :
  \/ \E x \in Grid(k), y \in Grid(j) : Loc(A, SSum(x, y)) = p
  \/ \E z \in Grid(p), x \in Grid(k) : Loc(A, SSum(z, SNeg(x))) = j
  \/ \E z \in Grid(p), y \in Grid(j) : Loc(A, SSum(z, SNeg(y))) = k
MulReaches == (Regular(k) /\ Regular(j) /\ k # 0 /\ j # 0) => \A p \in Set(MulI(A, k, j)) :
  \/ \E x \in Grid(k), y \in Grid(j) : Loc(A, SMul(x, y)) = p
  \/ \E z \in Grid(p), x \in Grid(k) : Loc(A, SMul(z, SInv(x))) = j
  \/ \E z \in Grid(p), y \in Grid(j) : Loc(A, SMul(z, SInv(y))) = k
Commute == AddI(A, k, j) = AddI(A, j, k) /\ MulI(A, k, j) = MulI(A, j, k)
SubIsNeg == SubI(A, k, j) = AddI(A, k, NegI(A, j))
MulSigns == ~IsAll(A, MulI(A, k, j)) => Set(MulI(A, NegI(A, k), j)) = {NegI(A, p) : p \in Set(MulI(A, k, j))}
\* arcs: complement is the rest, negation and inversion are pointwise
W == <<k, j>>
NotIsRest == /\ Set(ArcNot(A, W)) \cap ArcSet(A, W) = {}
             /\ Set(ArcNot(A, W)) \cup ArcSet(A, W) = 0..(N2(A) - 1)
NegPoints == Set(ArcNeg(A, W)) = {NegI(A, p) : p \in ArcSet(A, W)}
InvPoints == Set(ArcInv(A, W)) = {InvI(A, p) : p \in ArcSet(A, W)}
=============================================================================
