----------------------------- MODULE BigNatTest -----------------------------
(***************************************************************************)
(* The same terms with and without the Java evaluation of BigNat: the two  *)
(* runs must print the same.  Also checked here, in both: the laws that    *)
(* define the operators.                                                   *)
(***************************************************************************)
EXTENDS BigNat, TLC

(* a pseudo random sequence without BigNat's help *)
Lcg(x) == (x * 1103 + 12345) % 65521
RECURSIVE Walk(_, _)
Walk(x, k) == IF k = 0 THEN x ELSE Walk(Lcg(x), k - 1)
(* the i-th test number: up to 9 limbs, some of them 0 or Base - 1 *)
Num(i) ==
  LET s == Walk(i * 131 + 7, 3)
      n == s % 10
      L(j) == LET t == Walk(s + 977 * j, 2)
              IN  CASE t % 7 = 0 -> 0 [] t % 7 = 1 -> Base - 1 [] OTHER -> t % Base
      RECURSIVE Strip(_)
      Strip(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
  IN  Strip([j \in 1..n |-> L(j)])

VARIABLES i
N == 300
a == Num(i)
b == Num(i + 1)
d == IF Num(i + 2) = <<>> THEN <<3>> ELSE Num(i + 2)
k == Walk(i, 2) % 130
hi == IF BCmp(a, b) >= 0 THEN a ELSE b
lo == IF BCmp(a, b) >= 0 THEN b ELSE a

Laws ==
  /\ BSub(BAdd(a, b), b) = a
  /\ BAdd(BSub(hi, lo), lo) = hi
  /\ BMul(a, b) = BMul(b, a)
  /\ BMul(a, BAdd(b, d)) = BAdd(BMul(a, b), BMul(a, d))
  /\ BShl(a, k) = BMul(a, BPow2(k))
  /\ BAdd(BShl(BShr(a, k), k), BLow(a, k)) = a
  /\ BAdd(BMul(BDiv(a, d), d), BMod(a, d)) = a
  /\ BCmp(BMod(a, d), d) < 0
  /\ LET r == BSqrt(a) IN BCmp(BMul(r, r), a) <= 0 /\ BCmp(BMul(BAdd(r, BOne), BAdd(r, BOne)), a) > 0
  /\ (a # <<>> => BLow(a, BTz(a)) = <<>> /\ BLow(a, BTz(a) + 1) # <<>>)
  /\ (a # <<>> => BCmp(BPow2(BBitLen(a) - 1), a) <= 0 /\ BCmp(BPow2(BBitLen(a)), a) > 0)

Show == PrintT(<<"T", i, BAdd(a, b), BSub(hi, lo), BMul(a, b), BShl(a, k), BShr(a, k), BLow(a, k), BCmp(a, b), BBitLen(a),
                 BDivMod(a, d), BSqrt(a), BPow(BLow(a, 20), i % 7), BOfInt(i * 7001), BToInt(BLow(a, 30)), BTz(d), BPow2(k),
                 BNorm(a \o <<0, 0>>), BDiv(a, d), BMod(a, d)>>)

Init == i = 1
Next == i < N /\ i' = i + 1
Spec == Init /\ [][Next]_i
Inv == Laws /\ Show
=============================================================================
