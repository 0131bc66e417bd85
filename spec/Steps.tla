-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* Bars of a histogram drawn as steps: each over its own bin, joined or    *)
(* not, rescaled or not, without those left out.                           *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Gaps, First, Values, MaxBins, Scales
VARIABLES phase, edges, hist, joints, nonzero, positive, scale
vars == <<phase, edges, hist, joints, nonzero, positive, scale>>

Init == /\ phase = "bins" /\ \E f \in First : edges = <<f>>
        /\ hist = <<>> /\ joints = TRUE /\ nonzero = FALSE /\ positive = FALSE /\ scale = 0
AddBin == /\ phase = "bins" /\ Len(hist) < MaxBins
          /\ \E g \in Gaps : edges' = Append(edges, edges[Len(edges)] + g)
          /\ \E v \in Values : hist' = Append(hist, v)
          /\ UNCHANGED <<phase, joints, nonzero, positive, scale>>
Options == /\ phase = "bins" /\ hist # <<>> /\ MaxSeq(hist) > 0
           /\ joints' \in BOOLEAN /\ nonzero' \in BOOLEAN /\ positive' \in BOOLEAN /\ scale' \in Scales
           /\ phase' = "drawn" /\ UNCHANGED <<edges, hist>>
Shown(k) == (nonzero => hist[k] # 0) /\ (positive => hist[k] >= 0)
Height(k) == IF scale = 0 THEN QI(hist[k]) ELSE Q(scale * hist[k], MaxSeq(hist))
Bar(k) == << << edges[k], Height(k) >>, << edges[k + 1], Height(k) >> >>
\* lines: those that are shown and joined make up one
Lines == IF ~joints THEN [i \in 1..Cardinality({k \in DOMAIN hist : Shown(k)}) |->
                             Bar(CHOOSE k \in DOMAIN hist : Shown(k) /\ Cardinality({m \in 1..k : Shown(m)}) = i)]
         ELSE FoldLeft(LAMBDA ls, k : IF ~Shown(k) THEN ls
                                      ELSE IF k > 1 /\ (IF k > 1 THEN Shown(k - 1) ELSE FALSE)
                                           THEN [ls EXCEPT ![Len(ls)] = @ \o Bar(k)] ELSE Append(ls, Bar(k)),
                       <<>>, [k \in DOMAIN hist |-> k])
Finish == /\ phase = "drawn" /\ phase' = "done"
          /\ Emit([edges |-> edges, hist |-> hist, joints |-> joints, nonzero |-> nonzero, positive |-> positive, scale |-> scale, lines |-> Lines])
          /\ UNCHANGED <<edges, hist, joints, nonzero, positive, scale>>
Next == AddBin \/ Options \/ Finish

Done == phase = "done"
Points == FlattenSeq(Lines)
LawBars == Done => /\ Len(Points) = 2 * Cardinality({k \in DOMAIN hist : Shown(k)})
                   /\ \A i \in DOMAIN Points : i > 1 => Points[i - 1][1] <= Points[i][1]
LawScaled == Done => (scale # 0 => \E i \in DOMAIN Points : Points[i][2] = QI(scale) /\ \A j \in DOMAIN Points : QLe(Points[j][2], QI(scale)))
LawWhole == Done => (~nonzero /\ ~positive /\ joints => Len(Lines) = 1)
=============================================================================
