-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* A rectangular grid: edges along each dimension, and values at its nodes *)
(* (row-major).  Everything that is computed from it is made from sums     *)
(* over the corners of cells.                                              *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dim, NEdge, Gaps, First, Values
VARIABLES phase, edges, vals
gvars == <<phase, edges, vals>>

Dims == 1..Dim
DimSeq == [i \in Dims |-> i]
Shape == [i \in Dims |-> Len(edges[i])]
Counters(sh) == Product([i \in DOMAIN sh |-> [k \in 1..sh[i] |-> k]])
Index(sh, x) == FoldLeft(LAMBDA a, i : (a * sh[i]) + (x[i] - 1), 0, DimSeq) + 1
Width(i, k) == edges[i][k + 1] - edges[i][k]

\* ----- building the grid, one choice at a time
GInit == phase = "edges" /\ edges = <<>> /\ vals = <<>>
Grow(s, e) == [i \in DOMAIN s |-> IF i = Len(s) THEN Append(s[i], e) ELSE s[i]]
StartEdges == /\ phase = "edges" /\ Len(edges) < Dim
              /\ (IF edges = <<>> THEN TRUE ELSE Len(edges[Len(edges)]) \in NEdge)
              /\ \E f \in First : edges' = Append(edges, <<f>>)
              /\ UNCHANGED <<phase, vals>>
NextEdge == /\ phase = "edges" /\ edges # <<>>
            /\ \E m \in NEdge : Len(edges[Len(edges)]) < m
            /\ \E g \in Gaps : edges' = Grow(edges, edges[Len(edges)][Len(edges[Len(edges)])] + g)
            /\ UNCHANGED <<phase, vals>>
EdgesDone == /\ phase = "edges" /\ Len(edges) = Dim
             /\ (IF Len(edges) = Dim THEN Len(edges[Dim]) \in NEdge ELSE FALSE)
             /\ phase' = "vals" /\ UNCHANGED <<edges, vals>>
AddValue == /\ phase = "vals" /\ Len(vals) < ProdSeq(Shape)
            /\ \E v \in Values : vals' = Append(vals, v)
            /\ UNCHANGED <<phase, edges>>
ValsDone == /\ phase = "vals" /\ (IF phase = "vals" THEN Len(vals) = ProdSeq(Shape) ELSE FALSE)
            /\ phase' = "ready" /\ UNCHANGED <<edges, vals>>
Build == StartEdges \/ NextEdge \/ EdgesDone \/ AddValue \/ ValsDone

-----------------------------------------------------------------------------
(* Sums over the corners, along the axes A *)
Bits(A) == Product([i \in Dims |-> IF i \in A THEN <<0, 1>> ELSE <<0>>])
ShapeA(A) == [i \in Dims |-> IF i \in A THEN Len(edges[i]) - 1 ELSE Len(edges[i])]
Plus(x, b) == [i \in Dims |-> x[i] + b[i]]
CornerSum(v, A, x) == LET bb == Bits(A)  sh == Shape IN SumTo(Len(bb), LAMBDA k : v[Index(sh, Plus(x, bb[k]))])
\* the trapezoid mass of a cell, times 2^|A|
MassNum(v, A, x) == CornerSum(v, A, x) * ProdSeq([i \in Dims |-> IF i \in A THEN Width(i, x[i]) ELSE 1])
Masses(v, A) == LET cc == Counters(ShapeA(A)) IN [k \in DOMAIN cc |-> MassNum(v, A, cc[k])]
\* running totals along the axes A of an array of shape sh
Below(A, x, y) == \A i \in Dims : IF i \in A THEN y[i] <= x[i] ELSE y[i] = x[i]
Cumulate(arr, sh, A) ==
    LET cc == Counters(sh)
    IN [k \in DOMAIN cc |-> SumTo(Len(cc), LAMBDA j : IF Below(A, cc[k], cc[j]) THEN arr[j] ELSE 0)]
\* totals over the axes A, which are left with length one
Totals(arr, sh, A) ==
    LET cc == Counters(sh)  oo == Counters([i \in Dims |-> IF i \in A THEN 1 ELSE sh[i]])
    IN [k \in DOMAIN oo |-> SumTo(Len(cc), LAMBDA j : IF \A i \in Dims \ A : cc[j][i] = oo[k][i] THEN arr[j] ELSE 0)]

(* The linear profile of a cell along a dimension, summed over the others: values at the low and high edge *)
Face(v, x, i, side) ==
    LET bb == Bits(Dims)  sh == Shape
    IN SumTo(Len(bb), LAMBDA k : IF bb[k][i] = side THEN v[Index(sh, Plus(x, bb[k]))] ELSE 0)
\* its centre of mass, as a position; the middle of an empty cell
Centroid(v, x, i) ==
    LET a == Face(v, x, i, 0)  b == Face(v, x, i, 1)
    IN IF a + b = 0 THEN Q(edges[i][x[i]] + edges[i][x[i] + 1], 2)
       ELSE QAdd(QI(edges[i][x[i]]), QMul(QI(Width(i, x[i])), Q(a + (2 * b), 3 * (a + b))))

\* trapezoid weight of a node (times two), and first moment of its hat function (times six)
TW(i, k) == (IF k > 1 THEN Width(i, k - 1) ELSE 0) + (IF k < Len(edges[i]) THEN Width(i, k) ELSE 0)
TM(i, k) == (IF k > 1 THEN Width(i, k - 1) * (edges[i][k - 1] + (2 * edges[i][k])) ELSE 0)
          + (IF k < Len(edges[i]) THEN Width(i, k) * ((2 * edges[i][k]) + edges[i][k + 1]) ELSE 0)
=============================================================================
