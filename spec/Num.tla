-------------------------------- MODULE Num --------------------------------
(* Exact integer, rational and small-matrix arithmetic used by all the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

NumAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN NumAbs(a) ELSE Gcd(b, NumAbs(a) % NumAbs(b))
GcdSet(S) == FoldSet(LAMBDA a, b : Gcd(a, b), 0, S)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == MaxOf(lo, MinOf(x, hi))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, F(_)) == FoldSet(LAMBDA a, b : F(a) + b, 0, S)
SumTo(n, F(_)) == FoldLeft(LAMBDA a, b : a + F(b), 0, [i \in 1..n |-> i])
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MinSeq(s) == FoldLeft(LAMBDA a, b : MinOf(a, b), s[1], s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : MaxOf(a, b), s[1], s)
SortSeqI(s) == SortSeq(s, LAMBDA a, b : a < b)
StrictlyUp(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* Rational numbers <<n, d>> with d > 0 in lowest terms *)
Q(n, d) == LET g == Gcd(n, d)  s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
QI(n) == <<n, 1>>
\* exact division is used on values that are multiples: \div of TLA+ floors, which is exact there
QAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == Gcd(a[1], b[2])  h == Gcd(b[1], a[2])
                  gg == IF g = 0 THEN 1 ELSE g   hh == IF h = 0 THEN 1 ELSE h
              IN Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QDiv(a, b) == QMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
QLt(a, b) == QSub(a, b)[1] < 0
QLe(a, b) == QSub(a, b)[1] <= 0
QEq(a, b) == a = b
QSumSeq(s) == FoldLeft(LAMBDA a, b : QAdd(a, b), QI(0), s)
RECURSIVE QPow(_, _)
QPow(a, n) == IF n = 0 THEN QI(1) ELSE QMul(a, QPow(a, n - 1))
QMin(a, b) == IF QLt(a, b) THEN a ELSE b
QMax(a, b) == IF QLt(a, b) THEN b ELSE a

(* Determinant and adjugate of symmetric integer matrices *)
\* without row i and column j
Minor(m, i, j) == LET n == Len(m)  row == [a \in 1..(n - 1) |-> IF a < i THEN a ELSE a + 1]  col == [b \in 1..(n - 1) |-> IF b < j THEN b ELSE b + 1]
                  IN [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> m[row[a]][col[b]]]]
RECURSIVE Det(_)
Det(m) ==
    CASE Len(m) = 1 -> m[1][1]
      [] Len(m) = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
      [] Len(m) > 3 -> SumTo(Len(m), LAMBDA j : (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, 1, j)))
      [] OTHER -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
                  - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                  + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Others(i) == IF i = 1 THEN <<2, 3>> ELSE IF i = 2 THEN <<1, 3>> ELSE <<1, 2>>
Cof3(m, i, j) ==
    LET r == Others(i)  c == Others(j)
    IN (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * (m[r[1]][c[1]] * m[r[2]][c[2]] - m[r[1]][c[2]] * m[r[2]][c[1]])
Adj(m) ==
    CASE Len(m) = 1 -> <<<<1>>>>
      [] Len(m) = 2 -> <<<<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>>>>
      [] Len(m) > 3 -> TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(m, j, i))]])
      [] OTHER -> [i \in 1..3 |-> [j \in 1..3 |-> Cof3(m, j, i)]]
Leading(m, k) == [i \in 1..k |-> [j \in 1..k |-> m[i][j]]]
PosDef(m) == \A k \in 1..Len(m) : Det(Leading(m, k)) > 0
SubMat(m, p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> m[p[i]][p[j]]]]
Quad(a, v) == SumTo(Len(v), LAMBDA i : SumTo(Len(v), LAMBDA j : v[i] * a[i][j] * v[j]))

(* All ways to choose one element of each of the sequences in `cols`, the last one varying fastest *)
RECURSIVE Product(_)
Product(cols) ==
    IF cols = <<>> THEN << <<>> >>
    ELSE LET rest == Product(Tail(cols))  h == Head(cols)
             n == Len(rest)
         IN [k \in 1..(Len(h) * n) |-> <<h[((k - 1) \div n) + 1]>> \o rest[((k - 1) % n) + 1]]

(* Write one behaviour (or verdict) on TLC's output, for the conformance harness *)
Emit(rec) == PrintT("@@" \o ToJson(rec))
Verdict(i, clause) == PrintT("##" \o (IF clause = "" THEN "OK " \o ToString(i) ELSE "BAD " \o ToString(i) \o " " \o clause))
=============================================================================
