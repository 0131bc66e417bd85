------------------------------ MODULE Histogram ------------------------------
(***************************************************************************)
(* Histograms: every bin holds the weight of the data in it (the last edge *)
(* belongs to the last bin), over the total weight and/or the bin's width. *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Coords, Weights, MaxData, Gaps, First, MaxEdge, Long
VARIABLES phase, data, wts, weighted, edges
vars == <<phase, data, wts, weighted, edges>>

Init == phase = "fill" /\ data = <<>> /\ wts = <<>> /\ edges = <<>> /\ weighted \in BOOLEAN
AddDatum == /\ phase = "fill" /\ Long = {} /\ Len(data) < MaxData
            /\ \E x \in Coords : data' = Append(data, x)
            /\ \E w \in (IF weighted THEN Weights ELSE {1}) : wts' = Append(wts, w)
            /\ UNCHANGED <<phase, weighted, edges>>
Filled == /\ phase = "fill" /\ data # <<>> /\ SumSeq(wts) > 0
          /\ \E f \in First : edges' = <<f>>
          /\ phase' = "edges" /\ UNCHANGED <<data, wts, weighted>>
AddEdge == /\ phase = "edges" /\ Len(edges) < MaxEdge
           /\ \E g \in Gaps : edges' = Append(edges, edges[Len(edges)] + g)
           /\ UNCHANGED <<phase, data, wts, weighted>>
\* many data and edges by rules: numbers of data and gaps, numbers of the rule, and whether the data are in order
Rule(f, k) == (((f[3] * k * k) + (f[4] * k)) % f[5]) - (f[5] \div 3)
FillMany == /\ phase = "fill" /\ data = <<>>
            /\ \E f \in Long : \E x \in First :
                 LET v == TLCEval([k \in 1..f[1] |-> Rule(f, k)]) IN
                 /\ data' = IF f[6] = 1 THEN SortSeqI(v) ELSE v
                 /\ wts' = TLCEval([k \in 1..f[1] |-> IF weighted THEN (f[4] + (k * k)) % 7 ELSE 1])
                 /\ edges' = TLCEval(FoldLeft(LAMBDA e, k : Append(e, e[Len(e)] + 1 + (Rule(f, k + 3) % 4)), <<x>>, [k \in 1..f[2] |-> k]))
            /\ phase' = "edges" /\ UNCHANGED weighted
InBin(x, k) == edges[k] <= x /\ (x < edges[k + 1] \/ (k = Len(edges) - 1 /\ x = edges[k + 1]))
Bin(k) == SumTo(Len(data), LAMBDA j : IF InBin(data[j], k) THEN wts[j] ELSE 0)
Bins == [k \in 1..(Len(edges) - 1) |-> Bin(k)]
Finish == /\ phase = "edges" /\ Len(edges) > 1
          /\ Emit([data |-> data, w |-> wts, weighted |-> weighted, edges |-> edges, hist |-> Bins, total |-> SumSeq(wts)])
          /\ phase' = "done" /\ UNCHANGED <<data, wts, weighted, edges>>
Next == AddDatum \/ FillMany \/ Filled \/ AddEdge \/ Finish

\* every datum inside of the edges is in exactly one bin, those outside in none
LawOnce == (phase = "edges" /\ Len(edges) > 1) =>
    /\ \A j \in DOMAIN data : LET c == Cardinality({k \in 1..(Len(edges) - 1) : InBin(data[j], k)})
                              IN c = IF edges[1] <= data[j] /\ data[j] <= edges[Len(edges)] THEN 1 ELSE 0
    /\ SumSeq(Bins) <= SumSeq(wts)
\* joining bins adds their contents
LawJoin == (phase = "edges" /\ Len(edges) > 1) =>
    SumSeq(Bins) = SumTo(Len(data), LAMBDA j : IF edges[1] <= data[j] /\ data[j] <= edges[Len(edges)] THEN wts[j] ELSE 0)
=============================================================================
