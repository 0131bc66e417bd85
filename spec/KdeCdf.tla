------------------------------- MODULE KdeCdf -------------------------------
(***************************************************************************)
(* The cumulative distribution of an estimate on the grid of its points:   *)
(* at every node, the trapezoid-rule integral of the density over all      *)
(* lower cells over the total; in between, interpolated linearly; constant *)
(* beyond the grid.  A node's value is a bag like that of a density, whose *)
(* weights are multiplied by integer trapezoid coefficients.               *)
(***************************************************************************)
EXTENDS Kde
CONSTANTS Gaps,       \* possible distances between edges
          First,      \* possible first edges
          NEdge,      \* possible numbers of edges of each dimension
          Fine        \* query coordinates are multiples of 1/Fine
VARIABLES edges, gq
cvars == <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges, gq>>

CInit == Init /\ edges = <<>> /\ gq = <<>>
Construct == (ChooseSize \/ AddDatum \/ Configure \/ ChooseKernel \/ ChooseReflect) /\ UNCHANGED <<edges, gq>>

Extend(s, e) == [i \in DOMAIN s |-> IF i = Len(s) THEN Append(s[i], e) ELSE s[i]]
StartEdges == /\ phase = "query" /\ Len(edges) < Dim
              /\ (IF edges = <<>> THEN TRUE ELSE Len(edges[Len(edges)]) \in NEdge)
              /\ \E f \in First : edges' = Append(edges, <<f>>)
              /\ UNCHANGED <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, gq>>
NextEdge == /\ phase = "query" /\ gq = <<>> /\ edges # <<>> /\ \E m \in NEdge : Len(edges[Len(edges)]) < m
            /\ \E g \in Gaps : edges' = Extend(edges, edges[Len(edges)][Len(edges[Len(edges)])] + g)
            /\ UNCHANGED <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, gq>>
EdgesDone == Len(edges) = Dim /\ Len(edges[Dim]) \in NEdge

\* trapezoid coefficient (times two) of node j in the integral up to node k along one dimension
TC(e, j, k) == IF j > k THEN 0
               ELSE (IF j > 1 THEN e[j] - e[j - 1] ELSE 0) + (IF j < k THEN e[j + 1] - e[j] ELSE 0)
Nodes == Product([i \in Dims |-> [k \in 1..Len(edges[i]) |-> k]])
At(node) == [i \in Dims |-> edges[i][node[i]]]
Coef(j, k) == ProdSeq([i \in Dims |-> TC(edges[i], j[i], k[i])])

NodeBags == LET r == InForce(data, stored, [mode |-> "default", r |-> <<>>], AllParams)
                nd == Nodes
            IN [x \in DOMAIN nd |-> Answer(data, wts, mat, AllParams, r, At(nd[x]))]
Times(bag, c) == [i \in DOMAIN bag |-> << c * bag[i][1], bag[i][2] >>]
CdfBags == LET nb == NodeBags  nd == Nodes
           IN [k \in DOMAIN nd |-> Merge(FlattenSeq([j \in DOMAIN nd |->
                  IF Coef(nd[j], nd[k]) = 0 THEN <<>> ELSE Times(nb[j], Coef(nd[j], nd[k]))]))]

\* weights <<edge, num, den>> of the piecewise linear interpolation at coordinate x/Fine, constant outside
Hat(e, x) ==
    IF x <= e[1] * Fine THEN << <<1, 1, 1>> >>
    ELSE IF x >= e[Len(e)] * Fine THEN << <<Len(e), 1, 1>> >>
    ELSE LET k == CHOOSE c \in 1..(Len(e) - 1) : e[c] * Fine <= x /\ x < e[c + 1] * Fine
             d == (e[k + 1] - e[k]) * Fine
         IN << <<k, e[k + 1] * Fine - x, d>>, <<k + 1, x - e[k] * Fine, d>> >>
Interp(x) == LET hs == Product([i \in Dims |-> Hat(edges[i], x[i])])
             IN [h \in DOMAIN hs |-> << [i \in Dims |-> hs[h][i][1]],
                                        ProdSeq([i \in Dims |-> hs[h][i][2]]), ProdSeq([i \in Dims |-> hs[h][i][3]]) >>]

AddQuery == /\ phase = "query" /\ EdgesDone /\ Len(gq) < NPoint
            /\ \E x \in [Dims -> PCoords] : gq' = Append(gq, [at |-> x, w |-> Interp(x)])
            /\ UNCHANGED <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges>>
CFinish == /\ phase = "query" /\ EdgesDone /\ Len(gq) = NPoint
           /\ Emit([d |-> Dim, data |-> data, w |-> wts, weighted |-> weighted, bw |-> bw, bden |-> BDen, cov |-> cov,
                    kernel |-> kernel, stored |-> stored, mat |-> mat, den |-> den, wsum |-> W(wts), w2 |-> W2(wts),
                    det |-> Det(mat), edges |-> edges, fine |-> Fine, nodes |-> Nodes, cdf |-> CdfBags, gq |-> gq])
           /\ phase' = "done"
           /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges, gq>>
CNext == Construct \/ StartEdges \/ NextEdge \/ AddQuery \/ CFinish

Built == phase = "query" /\ EdgesDone /\ gq = <<>>
\* the coefficients grow along every direction, vanish at the lowest edges and add up to the volume
LawCoefs == Built => \A i \in Dims : LET e == edges[i] IN
    /\ \A j \in 1..Len(e) : TC(e, j, 1) = 0
    /\ \A j \in 1..Len(e) : \A k \in 1..(Len(e) - 1) : TC(e, j, k) <= TC(e, j, k + 1)
    /\ \A k \in 1..Len(e) : SumTo(Len(e), LAMBDA j : TC(e, j, k)) = 2 * (e[k] - e[1])
\* interpolation weights are a partition of unity, and exact for linear functions inside
LawHat == (phase = "query" /\ gq # <<>>) => \A i \in Dims :
    LET x == gq[Len(gq)].at[i]  e == edges[i]  h == Hat(e, x) IN
    /\ QSumSeq([s \in DOMAIN h |-> Q(h[s][2], h[s][3])]) = QI(1)
    /\ QSumSeq([s \in DOMAIN h |-> QMul(Q(h[s][2], h[s][3]), QI(e[h[s][1]]))])
         = Q(Clamp(x, e[1] * Fine, e[Len(e)] * Fine), Fine)
=============================================================================
