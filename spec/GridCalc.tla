------------------------------ MODULE GridCalc ------------------------------
(***************************************************************************)
(* Integrals, cumulative integrals, midpoints and centroids on a grid.     *)
(***************************************************************************)
EXTENDS Grid
CONSTANTS WithCentroids

AxisSets == {A \in SUBSET Dims : A # {}}
Per(A) ==
    LET mm == Masses(vals, A)  sh == ShapeA(A)
        cs == Counters(sh)  ccs == [k \in DOMAIN cs |-> CornerSum(vals, A, cs[k])]
    IN [axes |-> A, shape |-> sh, den |-> Pow(2, Cardinality(A)), mass |-> mm, mid |-> ccs,
        total |-> Totals(mm, sh, A),
        cum |-> IF Cardinality(A) = 1 \/ A = Dims THEN Cumulate(mm, sh, A) ELSE <<>>,
        plain |-> IF Cardinality(A) = 1 \/ A = Dims THEN Cumulate(vals, Shape, A) ELSE <<>>]
Cells == Counters(ShapeA(Dims))
Coms == IF WithCentroids THEN [i \in Dims |-> [k \in DOMAIN Cells |-> Centroid(vals, Cells[k], i)]] ELSE <<>>
Empty == [k \in DOMAIN Cells |-> CornerSum(vals, Dims, Cells[k]) = 0]
Finish == /\ phase = "ready"
          /\ Emit([d |-> Dim, edges |-> edges, vals |-> vals, shape |-> Shape, per |-> SetToSeq({Per(A) : A \in AxisSets}),
                   coms |-> Coms, empty |-> Empty])
          /\ phase' = "done" /\ UNCHANGED <<edges, vals>>
Init == GInit
Next == Build \/ Finish

Ready == phase = "ready"
\* the masses of all cells add up to the sum over all nodes with trapezoid weights
LawTotal == Ready =>
    LET nn == Counters(Shape)
    IN SumSeq(Masses(vals, Dims)) = SumTo(Len(nn), LAMBDA k : vals[k] * ProdSeq([i \in Dims |-> TW(i, nn[k][i])]))
\* integrating along one axis after another is integrating along both
LawFubini == Ready => \A i, j \in Dims : i # j =>
    LET one == Masses(vals, {i})  sh == ShapeA({i})  both == Counters(ShapeA({i, j}))
    IN \A k \in DOMAIN both : LET x == both[k] IN
        MassNum(vals, {i, j}, x) = Width(j, x[j]) * (one[Index(sh, x)] + one[Index(sh, [x EXCEPT ![j] = @ + 1])])
\* running totals end at the total, and grow if the values are not negative
LawCumulative == Ready => \A A \in {{i} : i \in Dims} \cup {Dims} :
    LET sh == ShapeA(A)  mm == Masses(vals, A)  cu == Cumulate(mm, sh, A)  tt == Totals(mm, sh, A)  cc == Counters(sh)
        oo == [i \in Dims |-> IF i \in A THEN 1 ELSE sh[i]]
    IN \A k \in DOMAIN cc :
        /\ (\A i \in A : cc[k][i] = sh[i]) => cu[k] = tt[Index(oo, [i \in Dims |-> IF i \in A THEN 1 ELSE cc[k][i]])]
        /\ \A i \in A : (cc[k][i] > 1 /\ \A m \in DOMAIN mm : mm[m] >= 0) => cu[k] >= cu[Index(sh, [cc[k] EXCEPT ![i] = @ - 1])]
\* centroids are inside of their cells; weighted by mass they give the first moments of the grid
LawInside == (Ready /\ WithCentroids) => \A k \in DOMAIN Cells : \A i \in Dims :
    LET x == Cells[k] IN /\ QLt(QI(edges[i][x[i]]), Centroid(vals, x, i))
                         /\ QLt(Centroid(vals, x, i), QI(edges[i][x[i] + 1]))
LawMoment == (Ready /\ WithCentroids) => \A i \in Dims :
    LET nn == Counters(Shape)
        lhs == QSumSeq([k \in DOMAIN Cells |-> QMul(Q(MassNum(vals, Dims, Cells[k]), Pow(2, Dim)), Centroid(vals, Cells[k], i))])
        rhs == SumTo(Len(nn), LAMBDA k : vals[k] * ProdSeq([j \in Dims |-> IF j = i THEN TM(j, nn[k][j]) ELSE TW(j, nn[k][j])]))
    IN lhs = Q(rhs, 6 * Pow(2, Dim - 1))
=============================================================================
