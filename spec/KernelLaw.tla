----------------------------- MODULE KernelLaw -----------------------------
(***************************************************************************)
(* The kernels, in every number of dimensions: radial profile, integral,   *)
(* and the laws of their random samples.  A finite kernel of order k is    *)
(* proportional to (1 - r^2)^k inside of the unit ball: box k = 0,         *)
(* parabola k = 1, triweight k = 3.                                        *)
(***************************************************************************)
EXTENDS Num

Order(kern) == CASE kern = "box" -> 0 [] kern = "parabola" -> 1 [] kern = "epanechnikov" -> 1
                 [] kern = "triweight" -> 3 [] OTHER -> -1
Finite(kern) == Order(kern) >= 0
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

\* (1 - y2)^k, of a rational y2; zero outside
Profile(kern, y2) == IF QLe(y2, QI(1)) THEN QPow(QSub(QI(1), y2), Order(kern)) ELSE QI(0)

\* volume of the unit ball: V(d) = rational * pi^(d \div 2)
RECURSIVE BallCoef(_)
BallCoef(d) == IF d = 0 THEN QI(1) ELSE IF d = 1 THEN QI(2) ELSE QMul(Q(2, d), BallCoef(d - 2))
PiPower(d) == d \div 2
\* integral of (1 - r^2)^k over the ball of radius s, relative to that of the constant over the unit ball
Partial(k, d, s) ==
    QMul(QPow(s, d), QSumSeq([j \in 1..(k + 1) |->
        QMul(QMul(QI((IF j % 2 = 1 THEN 1 ELSE -1) * Binom(k, j - 1)), QPow(s, 2 * (j - 1))), Q(d, d + 2 * (j - 1)))]))
\* the integral of the profile: NormCoef * pi^PiPower
NormCoef(kern, d) == QMul(BallCoef(d), Partial(Order(kern), d, QI(1)))
\* probability that a sample lies within radius s
RadialK(k, d, s) == QDiv(Partial(k, d, s), Partial(k, d, QI(1)))

-----------------------------------------------------------------------------
(* Probabilities in units of 1 / Units, rounded *)
Units == 10000
RECURSIVE Digits(_, _, _)
\* n / d (0 <= n, 0 < d < 2 * 10^8) with k more decimal digits
Digits(n, d, k) == IF k = 0 THEN n \div d ELSE (n \div d) * Pow(10, k) + Digits((n % d) * 10, d, k - 1)
Parts(q) == Digits(q[1], q[2], 4)

(* Laws that are not rational, or of long fractions, from tables:  radii 2/5 3/5 4/5 for half-odd orders (marginals of finite kernels),
   and 1/2 1 2 for the Gaussian; key: twice the order, dimensions *)
Pick(row, s) == CASE s = <<2, 5>> -> row[1] [] s = <<3, 5>> -> row[2] [] OTHER -> row[3]
RadialTable(k2, d, s) ==
    CASE d = 1 /\ k2 = 1 -> Pick(<<4954, 7152, 8959>>, s)
      [] d = 1 /\ k2 = 3 -> Pick(<<6261, 8456, 9693>>, s)
      [] d = 1 /\ k2 = 5 -> Pick(<<7139, 9124, 9904>>, s)
      [] d = 1 /\ k2 = 7 -> Pick(<<7771, 9490, 9969>>, s)
      [] d = 1 /\ k2 = 9 -> Pick(<<8243, 9698, 9990>>, s)
      [] d = 1 /\ k2 = 10 -> Pick(<<8436, 9767, 9994>>, s)
      [] d = 1 /\ k2 = 11 -> Pick(<<8604, 9819, 9997>>, s)
      [] d = 2 /\ k2 = 1 -> Pick(<<2301, 4880, 7840>>, s)
      [] d = 2 /\ k2 = 3 -> Pick(<<3533, 6723, 9222>>, s)
      [] d = 2 /\ k2 = 5 -> Pick(<<4568, 7903, 9720>>, s)
      [] d = 2 /\ k2 = 7 -> Pick(<<5437, 8658, 9899>>, s)
      [] d = 2 /\ k2 = 9 -> Pick(<<6167, 9141, 9964>>, s)
      [] d = 2 /\ k2 = 10 -> Pick(<<6487, 9313, 9978>>, s)
      [] d = 3 /\ k2 = 1 -> Pick(<<1033, 3241, 6759>>, s)
      [] d = 3 /\ k2 = 3 -> Pick(<<1869, 5119, 8636>>, s)
      [] d = 3 /\ k2 = 5 -> Pick(<<2712, 6560, 9447>>, s)
      [] d = 3 /\ k2 = 7 -> Pick(<<3522, 7615, 9781>>, s)
      [] d = 3 /\ k2 = 8 -> Pick(<<3907, 8023, 9863>>, s)
      [] d = 3 /\ k2 = 9 -> Pick(<<4277, 8365, 9915>>, s)
      [] d = 4 /\ k2 = 1 -> Pick(<<454, 2115, 5766>>, s)
      [] d = 4 /\ k2 = 3 -> Pick(<<946, 3774, 7978>>, s)
      [] d = 4 /\ k2 = 7 -> Pick(<<2152, 6483, 9609>>, s)
      [] d = 4 /\ k2 = 8 -> Pick(<<2472, 6994, 9746>>, s)
      [] d = 5 /\ k2 = 1 -> Pick(<<196, 1364, 4881>>, s)
      [] d = 5 /\ k2 = 3 -> Pick(<<464, 2715, 7285>>, s)
      [] d = 5 /\ k2 = 6 -> Pick(<<1032, 4753, 9087>>, s)
      [] d = 5 /\ k2 = 7 -> Pick(<<1255, 5365, 9381>>, s)
      [] d = 6 /\ k2 = 6 -> Pick(<<560, 3732, 8714>>, s)
GaussTable(d, s) ==
    CASE d = 1 -> (CASE s = <<1, 2>> -> 3829 [] s = <<1, 1>> -> 6827 [] OTHER -> 9545)
      [] d = 2 -> (CASE s = <<1, 2>> -> 1175 [] s = <<1, 1>> -> 3935 [] OTHER -> 8647)
      [] d = 3 -> (CASE s = <<1, 2>> -> 309 [] s = <<1, 1>> -> 1987 [] OTHER -> 7385)
      [] d = 4 -> (CASE s = <<1, 2>> -> 72 [] s = <<1, 1>> -> 902 [] OTHER -> 5940)
      [] d = 5 -> (CASE s = <<1, 2>> -> 15 [] s = <<1, 1>> -> 374 [] OTHER -> 4506)
      [] d = 6 -> (CASE s = <<1, 2>> -> 3 [] s = <<1, 1>> -> 144 [] OTHER -> 3233)
Radii(kern) == IF Finite(kern) THEN << <<2, 5>>, <<3, 5>>, <<4, 5>> >> ELSE << <<1, 2>>, <<1, 1>>, <<2, 1>> >>
\* probability (in Units) to lie within the i-th radius, of a d-dimensional kernel of which only e <= d dimensions are seen
Radial(kern, d, e, i) ==
    LET s == Radii(kern)[i]  k2 == 2 * Order(kern) + (d - e)
    IN CASE ~Finite(kern) -> GaussTable(e, s)
         [] k2 % 2 = 0 /\ e + k2 <= 10 -> Parts(RadialK(k2 \div 2, e, s))
         [] OTHER -> RadialTable(k2, e, s)
\* probability of the i-th shell
Shell(kern, d, e, i) ==
    LET hi == IF i = 4 THEN Units ELSE Radial(kern, d, e, i)
        lo == IF i = 1 THEN 0 ELSE Radial(kern, d, e, i - 1)
    IN hi - lo

\* Standard normal distribution function at k/4, in Units
PhiTable == <<5000, 5987, 6915, 7734, 8413, 8944, 9332, 9599, 9772, 9878, 9938, 9970, 9987, 9994, 9998, 9999, 10000>>
PhiQ(k) == LET a == MinOf(NumAbs(k), 16) IN IF k >= 0 THEN PhiTable[a + 1] ELSE Units - PhiTable[a + 1]
\* distribution function of the one-dimensional kernel of order k at the rational u, in Units
CdfK(k, u) == LET s == IF u[1] < 0 THEN QNeg(u) ELSE u
                  c == IF QLe(QI(1), s) THEN Units ELSE Parts(RadialK(k, 1, s))
              IN IF u[1] >= 0 THEN (Units + c) \div 2 ELSE (Units - c) \div 2

-----------------------------------------------------------------------------
(* Judging counts: a class of probability p/Units among n independent draws.  By Bernstein's inequality the deviation
   exceeds sqrt(2 n p L) + 2 L / 3 with a probability below 2 exp(-L); L = 32 (10^-13), plus the rounding of p. *)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo + 1 >= hi THEN hi ELSE LET m == (lo + hi) \div 2 IN IF m * m >= x THEN Root(x, lo, m) ELSE Root(x, m, hi)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Root(x, 0, 46340)
Mean(n, p) == ((n \div 100) * p) \div (Units \div 100)
\* r: rounding of p (in Units)
Tol(n, p, r) == Sqrt(64 * (Mean(n, p) + Mean(n, r) + 1)) + 22 + Mean(n, r)
CountOK(c, n, p, r) == NumAbs(c - Mean(n, p)) <= Tol(n, p, r)
=============================================================================
