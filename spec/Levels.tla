------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* Levels of a grid of values that enclose given fractions of their sum:   *)
(* the value of the last bin, in order of decreasing value, up to which    *)
(* the bins hold no more than the fraction (the highest value if even one  *)
(* bin holds more).  Grids may first be padded with their lowest value.    *)
(***************************************************************************)
EXTENDS Num
CONSTANTS NRow, NCol, Values, Gaps, First, QDen, NQ, Asked, Pads, Forms
VARIABLES phase, edges, vals, pad, qs, free, res
vars == <<phase, edges, vals, pad, qs, free, res>>

Init == phase = "edges" /\ edges = <<>> /\ vals = <<>> /\ pad = 0 /\ qs = <<>> /\ free = {} /\ res = <<>>
Shape(d) == IF edges = <<>> THEN 0 ELSE Len(edges[d]) - 1
StartAxis == /\ phase = "edges" /\ Len(edges) < 2 /\ (IF edges = <<>> THEN TRUE ELSE Len(edges[1]) - 1 \in NRow)
             /\ \E x \in First : edges' = Append(edges, <<x>>)
             /\ UNCHANGED <<phase, vals, pad, qs, free, res>>
AddEdge == /\ phase = "edges" /\ edges # <<>>
           /\ LET k == Len(edges)  e == edges[k] IN
              /\ Len(e) - 1 < MaxSeq(SetToSeq(IF k = 1 THEN NRow ELSE NCol))
              /\ \E g \in Gaps : edges' = [edges EXCEPT ![k] = Append(@, e[Len(e)] + g)]
           /\ UNCHANGED <<phase, vals, pad, qs, free, res>>
EndEdges == /\ phase = "edges" /\ Len(edges) = 2 /\ Len(edges[2]) - 1 \in NCol
            /\ \E p \in Pads : pad' = p
            /\ phase' = "vals" /\ UNCHANGED <<edges, vals, qs, free, res>>
AddVal == /\ phase = "vals" /\ Forms = {} /\ Len(vals) < Shape(1) * Shape(2)
          /\ \E v \in Values : vals' = Append(vals, v)
          /\ UNCHANGED <<phase, edges, pad, qs, free, res>>
\* many values by a rule (of four numbers)
Rule(f, k) == (((f[1] * k * k) + (f[2] * k)) % f[3]) + f[4]
AddMany == /\ phase = "vals" /\ vals = <<>>
           /\ \E f \in Forms : vals' = TLCEval([k \in 1..(Shape(1) * Shape(2)) |-> Rule(f, k)])
           /\ UNCHANGED <<phase, edges, pad, qs, free, res>>
At(i, j) == vals[((i - 1) * Shape(2)) + j]
\* the padded grid
PRow == Shape(1) + (2 * pad)
PCol == Shape(2) + (2 * pad)
Padded == [i \in 1..PRow |-> [j \in 1..PCol |->
              IF pad < i /\ i <= pad + Shape(1) /\ pad < j /\ j <= pad + Shape(2) THEN At(i - pad, j - pad) ELSE MinSeq(vals)]]
PEdges(d) == LET e == edges[d]  n == Len(e)
             IN [k \in 1..(n + (2 * pad)) |->
                    IF k <= pad THEN e[1] - ((pad + 1 - k) * (e[2] - e[1]))
                    ELSE IF k > pad + n THEN e[n] + ((k - pad - n) * (e[n] - e[n - 1])) ELSE e[k - pad]]
Flat == TLCEval([k \in 1..(PRow * PCol) |-> Padded[((k - 1) \div PCol) + 1][((k - 1) % PCol) + 1]])
Down(s) == SortSeq(s, LAMBDA a, b : a > b)
\* cumulative sums of the values in decreasing order
Cumul(d) == TLCEval(FoldLeft(LAMBDA c, v : Append(c, v + (IF c = <<>> THEN 0 ELSE c[Len(c)])), <<>>, d))
\* number of bins, of highest values, that together hold no more than q / QDen
Level(s, q) == LET d == TLCEval(Down(s))  c == Cumul(d)
                   k == Cardinality({j \in DOMAIN c : QDen * c[j] <= q * c[Len(c)]})
               IN IF k = 0 THEN d[1] ELSE d[k]
\* fractions that are exactly held by some bins are left out, as is rounding
Free == LET c == Cumul(Down(Flat))
        IN {q \in 1..QDen : q = QDen \/ \A k \in DOMAIN c : QDen * c[k] # q * c[Len(c)]}
EndVals == /\ phase = "vals" /\ Len(vals) = Shape(1) * Shape(2) /\ MaxSeq(vals) > 0
           /\ free' = Free /\ phase' = "ask" /\ UNCHANGED <<edges, vals, pad, qs, res>>
Ask == /\ phase = "ask" /\ Len(qs) < NQ
       /\ \E q \in free : qs' = Append(qs, q) /\ free' = free \ {q}
       /\ UNCHANGED <<phase, edges, vals, pad, res>>
Levels(s, q) == SortSeqI([k \in DOMAIN q |-> Level(s, q[k])])
Finish == /\ phase = "ask" /\ Len(qs) \in Asked
          /\ LET f == Flat IN res' = [flat |-> f, each |-> [k \in DOMAIN qs |-> Level(f, qs[k])], levels |-> Levels(f, qs)]
          /\ phase' = "done"
          /\ Emit([edges |-> edges, vals |-> vals, shape |-> <<Shape(1), Shape(2)>>, pad |-> pad, qs |-> qs, qden |-> QDen,
                   padded |-> Padded, pedges |-> <<PEdges(1), PEdges(2)>>, each |-> res'.each, levels |-> res'.levels])
          /\ UNCHANGED <<edges, vals, pad, qs, free>>
Next == StartAxis \/ AddEdge \/ EndEdges \/ AddVal \/ AddMany \/ EndVals \/ Ask \/ Finish

Done == phase = "done"
LawMass == Done => \A k \in DOMAIN qs :
    LET s == res.flat  v == res.each[k]  above == SumOver({j \in DOMAIN s : s[j] > v}, LAMBDA j : s[j])
    IN /\ v \in {s[j] : j \in DOMAIN s}
       \* the bins above the level hold no more than the fraction, and there is no room for any next bin of lower value
       /\ (QDen * above <= qs[k] * SumSeq(s) \/ v = MaxSeq(s))
       /\ LET least == SumOver({j \in DOMAIN s : s[j] >= v}, LAMBDA j : s[j])
              lower == {s[j] : j \in {i \in DOMAIN s : s[i] < v}}
          IN lower # {} => (QDen * (least + MaxSeq(SetToSeq(lower)))) > qs[k] * SumSeq(s)
LawOrder == Done => \A j, k \in DOMAIN qs : qs[j] <= qs[k] => res.each[j] >= res.each[k]
LawScale == Done => Levels([k \in DOMAIN res.flat |-> 3 * res.flat[k]], qs) = [k \in DOMAIN res.levels |-> 3 * res.levels[k]]
LawShuffle == Done => Levels(Reverse(res.flat), qs) = res.levels
LawPad == Done => /\ Len(res.flat) = PRow * PCol
                  /\ \A d \in 1..2 : StrictlyUp(PEdges(d)) /\ SubSeq(PEdges(d), pad + 1, pad + Len(edges[d])) = edges[d]
=============================================================================
