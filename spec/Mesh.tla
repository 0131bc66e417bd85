-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Two-dimensional histograms of weighted data: the share of the weight in *)
(* each bin, over its area, and which bins hold less than a datum.         *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Coords, Weights, NData, Gaps, First, NBins
VARIABLES phase, data, wts, weighted, edges
vars == <<phase, data, wts, weighted, edges>>

Init == phase = "edges" /\ data = <<>> /\ wts = <<>> /\ edges = <<>> /\ weighted \in BOOLEAN
StartAxis == /\ phase = "edges" /\ Len(edges) < 2 /\ (IF edges = <<>> THEN TRUE ELSE Len(edges[1]) - 1 \in NBins)
             /\ \E f \in First : edges' = Append(edges, <<f>>)
             /\ UNCHANGED <<phase, data, wts, weighted>>
AddEdge == /\ phase = "edges" /\ edges # <<>>
           /\ LET d == Len(edges) IN /\ \E n \in NBins : Len(edges[d]) - 1 < n
                                     /\ \E g \in Gaps : edges' = [edges EXCEPT ![d] = Append(@, @[Len(@)] + g)]
           /\ UNCHANGED <<phase, data, wts, weighted>>
EndEdges == /\ phase = "edges" /\ Len(edges) = 2 /\ Len(edges[2]) - 1 \in NBins
            /\ phase' = "data" /\ UNCHANGED <<data, wts, weighted, edges>>
AddX == /\ ((phase = "data" /\ Len(data) \notin NData) \/ phase = "more")
        /\ \E x \in Coords : data' = Append(data, <<x>>)
        /\ phase' = "second" /\ UNCHANGED <<wts, weighted, edges>>
AddY == /\ phase = "second"
        /\ \E y \in Coords : data' = [data EXCEPT ![Len(data)] = Append(@, y)]
        /\ phase' = "weight" /\ UNCHANGED <<wts, weighted, edges>>
AddW == /\ phase = "weight"
        /\ \E w \in (IF weighted THEN Weights ELSE {1}) : wts' = Append(wts, w)
        /\ phase' = "data" /\ UNCHANGED <<data, weighted, edges>>
More == /\ phase = "data" /\ Len(data) \in NData /\ \E n \in NData : Len(data) < n
        /\ phase' = "more" /\ UNCHANGED <<data, wts, weighted, edges>>
InBin(x, e, k) == e[k] <= x /\ (x < e[k + 1] \/ (k = Len(e) - 1 /\ x = e[k + 1]))
Bin(i, j) == SumTo(Len(data), LAMBDA n : IF InBin(data[n][1], edges[1], i) /\ InBin(data[n][2], edges[2], j) THEN wts[n] ELSE 0)
Area(i, j) == (edges[1][i + 1] - edges[1][i]) * (edges[2][j + 1] - edges[2][j])
Bins == [i \in 1..(Len(edges[1]) - 1) |-> [j \in 1..(Len(edges[2]) - 1) |-> Bin(i, j)]]
Inside == SumTo(Len(edges[1]) - 1, LAMBDA i : SumTo(Len(edges[2]) - 1, LAMBDA j : Bin(i, j)))
\* less than the average weight of a datum; "near" when it is a matter of rounding
Less(i, j) == IF Len(data) * Bin(i, j) >= SumSeq(wts) THEN "no" ELSE IF 20 * Len(data) * Bin(i, j) < 17 * SumSeq(wts) THEN "yes" ELSE "near"
Finish == /\ phase = "data" /\ Len(data) \in NData /\ Inside > 0
          /\ Emit([data |-> data, w |-> wts, weighted |-> weighted, edges |-> edges, bins |-> Bins, inside |-> Inside,
                   areas |-> [i \in 1..(Len(edges[1]) - 1) |-> [j \in 1..(Len(edges[2]) - 1) |-> Area(i, j)]],
                   less |-> [i \in 1..(Len(edges[1]) - 1) |-> [j \in 1..(Len(edges[2]) - 1) |-> Less(i, j)]]])
          /\ phase' = "done" /\ UNCHANGED <<data, wts, weighted, edges>>
Next == StartAxis \/ AddEdge \/ EndEdges \/ AddX \/ AddY \/ AddW \/ More \/ Finish

Done == phase = "done"
LawOnce == Done => Inside = SumTo(Len(data), LAMBDA n :
    IF \A d \in 1..2 : edges[d][1] <= data[n][d] /\ data[n][d] <= edges[d][Len(edges[d])] THEN wts[n] ELSE 0)
LawEmpty == Done => \A i \in 1..(Len(edges[1]) - 1) : \A j \in 1..(Len(edges[2]) - 1) : (Bin(i, j) = 0 => Less(i, j) = "yes")
\* bins of unweighted data that hold something hold a datum
LawCount == Done => (~weighted => \A i \in 1..(Len(edges[1]) - 1) : \A j \in 1..(Len(edges[2]) - 1) : (Less(i, j) = "no" <=> Bin(i, j) > 0))
=============================================================================
