---------------------------- MODULE KdeFromHist ----------------------------
(***************************************************************************)
(* An estimate constructed from a histogram with uniform bins: it is the   *)
(* estimate of the bin centres, in index order (the last dimension varying *)
(* fastest), weighted by the counts, with bandwidth equal to the widths.   *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dim, Bins, Widths, Start, Counts, PCoords, WSet, BDen, Kernels, Reflects, StoredModes, QueryModes,
          ParamSels, NQuery, NPoint, Grids

VARIABLES phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges
K == INSTANCE Kde WITH Coords <- {}, NSet <- {}, Weighted <- {TRUE}, Bws <- {}, Covs <- {<<>>}
all == <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges>>

Centres(es) == Product([i \in DOMAIN es |-> [k \in 1..(Len(es[i]) - 1) |-> (es[i][k] + es[i][k + 1]) \div 2]])
Width(e) == e[2] - e[1]

Init == K!Init /\ edges = <<>>

\* bins of one more dimension, all of the same width
AddBins == /\ phase = "size" /\ Len(edges) < Dim
           /\ \E b \in Bins, w \in Widths, s \in Start : edges' = Append(edges, [k \in 1..(b + 1) |-> s + w * (k - 1)])
           /\ UNCHANGED <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den>>
Centre == /\ phase = "size" /\ Len(edges) = Dim
          /\ data' = Centres(edges) /\ n' = Len(data') /\ weighted' = TRUE
          /\ phase' = "counts"
          /\ UNCHANGED <<wts, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges>>
Count == /\ phase = "counts" /\ Len(wts) < n
         /\ \E c \in Counts : wts' = Append(wts, c)
         /\ UNCHANGED <<phase, n, data, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges>>
Build == /\ phase = "counts" /\ Len(wts) = n /\ K!W(wts) > 0 /\ K!CovDen(wts) > 0
         /\ LET b == [kind |-> "vec", v |-> [i \in 1..Dim |-> Width(edges[i])], sym |-> ""]
                rm == K!RawMat(data, wts, b, <<>>)
                red == K!Reduced(rm, K!RawDen(wts, <<>>))
            IN /\ GcdSet(K!Entries(rm)) # 0 /\ PosDef(red.m)
               /\ bw' = b /\ mat' = red.m /\ den' = red.d
         /\ phase' = "kernel"
         /\ UNCHANGED <<n, data, wts, weighted, cov, kernel, stored, pts, ask, qs, edges>>
Later == (K!ChooseKernel \/ K!ChooseReflect \/ K!AddPoint \/ K!Ask \/ K!Reply) /\ UNCHANGED edges
Finish == /\ phase = "query" /\ Len(qs) = NQuery
          /\ Emit([d |-> Dim, edges |-> edges, data |-> data, w |-> wts, weighted |-> TRUE, bw |-> bw, bden |-> 1, cov |-> <<>>,
                   kernel |-> kernel, stored |-> stored, mat |-> mat, den |-> den, wsum |-> K!W(wts), w2 |-> K!W2(wts), qs |-> qs])
          /\ phase' = "done"
          /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, edges>>
Next == AddBins \/ Centre \/ Count \/ Build \/ Later \/ Finish

\* the k-th centre lies in the k-th bin, counting the last dimension fastest
RECURSIVE Index(_, _, _)
Index(es, x, i) == IF i = 0 THEN 0
                   ELSE Index(es, x, i - 1) * (Len(es[i]) - 1) + ((x[i] - es[i][1]) \div Width(es[i]))
LawCentres == (phase = "counts" /\ wts = <<>>) => \A k \in 1..n : /\ Index(edges, data[k], Dim) = k - 1
                                                /\ \A i \in 1..Dim : data[k][i] > edges[i][1] /\ data[k][i] < edges[i][Len(edges[i])]
LawMass == (phase = "kernel") => K!W(wts) = SumTo(n, LAMBDA k : wts[k])
=============================================================================
