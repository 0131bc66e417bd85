------------------------------ MODULE GridTrace ------------------------------
(***************************************************************************)
(* Judges recorded samples of a gridded distribution (GridSample.tla), as  *)
(* counts: by cell; by quarter of the cell in each dimension; by halves in *)
(* every two dimensions; numbers of Poisson draws.                         *)
(***************************************************************************)
EXTENDS KernelLaw, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* n * p <= 2 * 10^9
MeanX(n, p) == (n * p) \div Units
TolX(m, slack) == Sqrt(64 * (m + slack + 1)) + 22 + slack
Near(c, m, slack) == NumAbs(c - m) <= TolX(m, slack)
Reach(a, b, x) == IF a + b = 0 THEN x ELSE QAdd(x, QMul(Q(b - a, b + a), QMul(x, QSub(x, QI(1)))))
Quarter(f, q) == Parts(QSub(Reach(f[1], f[2], Q(q, 4)), Reach(f[1], f[2], Q(q - 1, 4))))
Half(f, s) == IF s = 1 THEN Parts(Reach(f[1], f[2], Q(1, 2))) ELSE Units - Parts(Reach(f[1], f[2], Q(1, 2)))

\* by cell
Total(v) == SumSeq(v.mass)
Share(v, k) == Digits(v.mass[k], Total(v), 4)
CellClause(v) ==
    CASE SumSeq(v.cnt) # v.n -> "number of samples inside of the cells"
      [] \E k \in DOMAIN v.mass : v.mass[k] = 0 /\ v.cnt[k] # 0 -> "samples in a cell without mass"
      [] \E k \in DOMAIN v.mass : ~Near(v.cnt[k], MeanX(v.n, Share(v, k)), MeanX(v.n, 1) + 1) -> "cells are not chosen by mass"
      [] OTHER -> ""
\* position in one dimension: for every cell its faces f and counts q of the four quarters
QuarterClause(v) ==
    CASE \E k \in DOMAIN v.f : LET n == SumSeq(v.q[k]) IN \E i \in 1..4 :
            ~Near(v.q[k][i], MeanX(n, Quarter(v.f[k], i)), MeanX(n, 2) + 1) -> "positions within a cell do not follow its linear profile"
      [] \E i \in 1..4 :
            ~Near(SumTo(Len(v.f), LAMBDA k : v.q[k][i]), SumTo(Len(v.f), LAMBDA k : MeanX(SumSeq(v.q[k]), Quarter(v.f[k], i))),
                  Len(v.f) + MeanX(SumTo(Len(v.f), LAMBDA k : SumSeq(v.q[k])), 2)) -> "positions within the cells do not follow the linear profiles"
      [] OTHER -> ""
\* the same for very many samples: small slopes, turned so that all profiles increase
Turned(q, f) == IF f[1] <= f[2] THEN q[1] + q[2] ELSE q[3] + q[4]
SlopeClause(v) ==
    LET up == {k \in DOMAIN v.f : v.f[k][1] # v.f[k][2]}
        lower(k) == Half(<<MinOf(v.f[k][1], v.f[k][2]), MaxOf(v.f[k][1], v.f[k][2])>>, 1)
    IN IF ~Near(SumTo(Len(v.f), LAMBDA k : IF k \in up THEN Turned(v.q[k], v.f[k]) ELSE 0),
                SumTo(Len(v.f), LAMBDA k : IF k \in up THEN MeanX(SumSeq(v.q[k]), lower(k)) ELSE 0),
                Len(v.f) + MeanX(SumTo(Len(v.f), LAMBDA k : SumSeq(v.q[k])), 1))
       THEN "positions within the cells do not follow their small slopes" ELSE QuarterClause(v)
\* k samples for every unit of mass
TimesClause(v) ==
    CASE SumSeq(v.cnt) # v.n -> "number of samples inside of the cells"
      [] \E k \in DOMAIN v.mass : v.mass[k] = 0 /\ v.cnt[k] # 0 -> "samples in a cell without mass"
      [] \E k \in DOMAIN v.mass : ~Near(v.cnt[k], v.k * v.mass[k], 0) -> "cells of very different masses are not chosen by mass"
      [] OTHER -> ""
\* the same for many cells, in one or two dimensions: the masses are those of edges e and values v (trapezoids, times 2^dimensions)
At2(v, i, j) == v.v[(i - 1) * Len(v.e[2]) + j]
ManyMass(v) ==
    IF Len(v.e) = 1 THEN [i \in 1..(Len(v.e[1]) - 1) |-> (v.e[1][i + 1] - v.e[1][i]) * (v.v[i] + v.v[i + 1])]
    ELSE LET nj == Len(v.e[2]) - 1 IN
         [k \in 1..((Len(v.e[1]) - 1) * nj) |->
            LET i == ((k - 1) \div nj) + 1  j == ((k - 1) % nj) + 1
            IN (v.e[1][i + 1] - v.e[1][i]) * (v.e[2][j + 1] - v.e[2][j])
               * (At2(v, i, j) + At2(v, i + 1, j) + At2(v, i, j + 1) + At2(v, i + 1, j + 1))]
ManyClause(v) ==
    LET m == ManyMass(v) IN
    CASE Len(v.cnt) # Len(m) \/ SumSeq(v.cnt) # v.k * SumSeq(m) -> "number of samples inside of the cells"
      [] \E c \in DOMAIN m : m[c] = 0 /\ v.cnt[c] # 0 -> "samples in a cell without mass"
      [] \E c \in DOMAIN m : ~Near(v.cnt[c], v.k * m[c], 0) -> "one of many cells is not chosen by mass"
      \* runs of cells
      [] \E r \in 0..((Len(m) - 1) \div 50) : LET hi == MinOf(Len(m), 50 * r + 50) IN
            ~Near(SumTo(hi - 50 * r, LAMBDA c : v.cnt[50 * r + c]), SumTo(hi - 50 * r, LAMBDA c : v.k * m[50 * r + c]), 0)
         -> "runs of many cells are not chosen by mass"
      [] OTHER -> ""
\* position in two dimensions: for every cell its faces f, g and its number of samples; counts c[s][t] over all cells
JointClause(v) ==
    CASE \E s, t \in 1..2 :
            ~Near(v.c[s][t], SumTo(Len(v.f), LAMBDA k : MeanX(v.n[k], (Half(v.f[k], s) * Half(v.g[k], t)) \div Units)),
                  Len(v.f) + MeanX(SumSeq(v.n), 2)) -> "positions in two dimensions are not independent"
      [] OTHER -> ""
CountClause(v) == IF Near(v.c, v.m, 1) THEN "" ELSE "mean number"

Clause(v) == CASE v.what = "cells" -> CellClause(v)
               [] v.what = "quarters" -> QuarterClause(v)
               [] v.what = "slopes" -> SlopeClause(v)
               [] v.what = "times" -> TimesClause(v)
               [] v.what = "many" -> ManyClause(v)
               [] v.what = "joint" -> JointClause(v)
               [] OTHER -> CountClause(v)
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
