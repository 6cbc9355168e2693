------------------------------- MODULE CallsP --------------------------------
(***************************************************************************)
(* Calls of scripts/punum.py against Pnum.  -1 stands for an exception.    *)
(***************************************************************************)
EXTENDS Pnum, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Names == Trace[1].cfgs
Alpha(c) == CASE Names[c].name = "p1"   -> P1A
              [] Names[c].name = "p2"   -> P2A
              [] Names[c].name = "p4"   -> P4A
              [] Names[c].name = "p8"   -> P8A
              [] Names[c].name = "p8a"  -> P8F
              [] Names[c].name = "p16a" -> P16F
              [] OTHER -> Names[c].e

\* printed: a value as a reduced fraction
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
QStr(q) == IF QIsInf(q) THEN "inf"
           ELSE LET n == BToInt(q[1])
                    d == BToInt(q[2])
                    g == Gcd(n, d)
                IN  IF d = g THEN ToString(n \div g) ELSE ToString(n \div g) \o "/" \o ToString(d \div g)
VStr(A, k) == (IF IsNeg(A, k) THEN "-" ELSE "") \o QStr(Mag(A, AbsI(A, k)))
ArcStr(A, w) ==
  IF w = <<>> THEN "[]"
  ELSE IF IsAll(A, w) THEN "[all]"
  ELSE IF w[1] = w[2] /\ Exact(w[1]) THEN "[" \o VStr(A, w[1]) \o "]"
  ELSE (IF Exact(w[1]) THEN "[" \o VStr(A, w[1]) ELSE "(" \o VStr(A, Pt(A, w[1] - 1)))
       \o "," \o (IF Exact(w[2]) THEN VStr(A, w[2]) \o "]" ELSE VStr(A, Pt(A, w[2] + 1)) \o ")")

B01(b) == IF b THEN 1 ELSE 0
CallOK(row, i) ==
  LET A == Alpha(row.c)
      a == row.a[i]
      r == row.r[i]
  IN CASE row.o = "alphabet" -> r = B01(IsAlphabet(a))
       [] row.o = "exacts" -> Len(r) = Len(A) /\ \A j \in 1..Len(A) : r[j][1] = 0 /\ QEq(<<r[j][2], r[j][3]>>, A[j])
       [] row.o = "consts" -> r = <<N2(A), OneI(A), 0, InfI(A), OneI(A), 0, InfI(A), Len(A)>>
       [] row.o = "conv"   -> r = (CASE a.t = "nan" -> -1
                                     [] a.t = "inf" -> InfI(A)
                                     [] a.t = "num" -> Loc(A, <<a.s, <<a.n, a.d>>>>))
       [] row.o = "value"  -> LET v == SVal(A, a)
                              IN  /\ QIsInf(v[2]) = QIsInf(<<r[2], r[3]>>)
                                  /\ QEq(v[2], <<r[2], r[3]>>)
                                  /\ QIsInf(v[2]) \/ QIsZero(v[2]) \/ r[1] = v[1]
       [] row.o = "index"  -> r = Pt(A, a)
       [] row.o = "exact"  -> r = OneI(A) + 2 * a
       [] row.o = "neg"    -> r = NegI(A, a)
       [] row.o = "inv"    -> r = InvI(A, a)
       [] row.o = "abs"    -> r = AbsI(A, a)
       [] row.o = "next"   -> r = Pt(A, a + 1)
       [] row.o = "prev"   -> r = Pt(A, a - 1)
       [] row.o = "pred"   -> r = <<B01(a = 0), B01(a = InfI(A)), B01(Exact(a)), B01(IsNeg(A, a)), B01(IsFrac(A, a))>>
       [] row.o = "str"    -> r = "pnum(" \o VStr(A, a) \o ")"
       [] row.o = "add"    -> SameArc(A, r, AddI(A, a, row.b[i]))
       [] row.o = "sub"    -> SameArc(A, r, SubI(A, a, row.b[i]))
       [] row.o = "mul"    -> SameArc(A, r, MulI(A, a, row.b[i]))
       [] row.o = "div"    -> SameArc(A, r, DivI(A, a, row.b[i]))
       [] row.o = "aneg"   -> SameArc(A, r, ArcNeg(A, a))
       [] row.o = "ainv"   -> SameArc(A, r, ArcInv(A, a))
       [] row.o = "anot"   -> SameArc(A, r, ArcNot(A, a))
       [] row.o = "aall"   -> r = B01(IsAll(A, a))
       [] row.o = "aiter"  -> r = ArcSeq(A, a)
       [] row.o = "astr"   -> r = ArcStr(A, a)
       [] row.o = "aconst" -> SameArc(A, r, CASE a = "inf" -> <<InfI(A), InfI(A)>>
                                              [] a = "one" -> <<OneI(A), OneI(A)>>
                                              [] a = "zero" -> <<0, 0>>
                                              [] a = "empty" -> <<>>
                                              [] a = "finite" -> <<Pt(A, InfI(A) + 1), InfI(A) - 1>>
                                              [] a = "nonzero" -> <<1, N2(A) - 1>>
                                              [] a = "everything" -> All(A))

RowBad(k)  == LET row == Trace[k] IN {i \in 1..Len(row.r) : ~CallOK(row, i)}
RowLen(k)  == Len(Trace[k].r)
RowName(k) == Trace[k].o
NRows      == Len(Trace)

VARIABLES l, bad, calls
Loop == INSTANCE TraceLoop
Spec == Loop!Spec
Accepted == Loop!Accepted
=============================================================================
