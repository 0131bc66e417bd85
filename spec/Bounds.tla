------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Accumulating the range of successive batches of data, and selecting     *)
(* points by bounds.                                                       *)
(***************************************************************************)
EXTENDS Span
CONSTANTS Dim, Coords, MaxData, NBatch, Stretches, Limits, NSelect, Long
VARIABLES phase, data, junk, acc, hist, sel, bnd
vars == <<phase, data, junk, acc, hist, sel, bnd>>
\* `bnd`: bounds of the first dimensions, chosen one after the other
\* `data` is the batch (a sequence of points, of which the first coordinate is accumulated); `junk`: number of values that
\* are not positive, and to be ignored

Dims == 1..Dim
Init == phase = "new" /\ data = <<>> /\ junk = 0 /\ acc = NoRange /\ hist = <<>> /\ sel = <<>> /\ bnd = <<>>
New == /\ phase = "new" /\ Len(hist) < NBatch /\ MaxData > 0
       /\ \E x \in [Dims -> Coords] : data' = <<x>>
       /\ junk' \in {0, 0, 2} /\ phase' = "fill" /\ UNCHANGED <<acc, hist, sel, bnd>>
\* many points by a rule, possibly in order
\* (even numbers: 99 is no bound)
Rule(f, i, k) == 2 * (((f[1] * k * k) + (f[2] * k * i) + (f[3] * i)) % 2001)
NewLong == /\ phase = "new" /\ Len(hist) < NBatch
           /\ \E n \in Long : \E f \in {<<17, 5, 3>>, <<0, 1, 2>>, <<3, 11, 900>>} :
                data' = TLCEval([k \in 1..n |-> [i \in Dims |-> Rule(f, i, k) - 1000]])
           /\ junk' \in {0, 2} /\ phase' = "use" /\ UNCHANGED <<acc, hist, sel, bnd>>
\* a batch may be empty, apart from junk
NewEmpty == /\ phase = "new" /\ Len(hist) < NBatch /\ hist # <<>>
            /\ data' = <<>> /\ junk' \in {0, 3} /\ phase' = "use" /\ UNCHANGED <<acc, hist, sel, bnd>>
Fill == /\ phase = "fill" /\ Len(data) < MaxData
        /\ \E x \in [Dims -> Coords] : data' = Append(data, x)
        /\ UNCHANGED <<phase, junk, acc, hist, sel, bnd>>
Filled == phase = "fill" /\ phase' = "use" /\ UNCHANGED <<data, junk, acc, hist, sel, bnd>>
First == [k \in DOMAIN data |-> data[k][1]]
Opt(l) == IF l = 99 THEN None ELSE Some(QI(l))
\* accumulate with stretches f and limits l, starting from the accumulated range or from scratch
Accumulate ==
    /\ phase = "use"
    /\ \E f \in Stretches : \E l \in Limits : \E useprev \in BOOLEAN :
         LET prev == IF useprev THEN acc ELSE NoRange
             res == IF data = <<>> THEN prev ELSE SpanOf(First, f, prev, << Opt(l[1]), Opt(l[2]) >>)
         IN /\ acc' = res
            /\ hist' = Append(hist, [data |-> First, junk |-> junk, f |-> f, lim |-> << Opt(l[1]), Opt(l[2]) >>, prev |-> prev, res |-> res,
                                     none |-> (data = <<>> /\ ~useprev)])
    /\ phase' = (IF data = <<>> THEN "new" ELSE "select") /\ UNCHANGED <<data, junk, sel, bnd>>

\* bounds <<lo, hi>> of each dimension (99: none)
In(x, b) == (b[1] = 99 \/ b[1] < x) /\ (b[2] = 99 \/ x < b[2])
Beyond(x, b) == (b[1] # 99 /\ x < b[1]) \/ (b[2] # 99 /\ b[2] < x)
Inside(x, bb) == \A i \in Dims : In(x[i], bb[i])
Outside(x, bb) == \E i \in Dims : Beyond(x[i], bb[i])
\* (in many dimensions, bounds that leave out few)
Lows == {c \in Coords : Dim < 4 \/ c < 0}
Highs == {c \in Coords : Dim < 4 \/ c > 0}
BoundRow == {<<99, 99>>} \cup {<<a, 99>> : a \in Lows} \cup {<<99, b>> : b \in Highs} \cup {p \in Lows \X Highs : p[1] < p[2]}
BoundOne == /\ phase = "select" /\ Len(sel) < NSelect /\ Len(bnd) < Dim
            /\ \E b \in BoundRow : bnd' = Append(bnd, b)
            /\ UNCHANGED <<phase, data, junk, acc, hist, sel>>
Select == /\ phase = "select" /\ Len(sel) < NSelect /\ Len(bnd) = Dim
          /\ sel' = Append(sel, [pts |-> data, b |-> bnd, ins |-> [k \in DOMAIN data |-> Inside(data[k], bnd)],
                                  outs |-> [k \in DOMAIN data |-> Outside(data[k], bnd)]])
          /\ bnd' = <<>> /\ UNCHANGED <<phase, data, junk, acc, hist>>
Again == phase = "select" /\ bnd = <<>> /\ phase' = "new" /\ UNCHANGED <<data, junk, acc, hist, sel, bnd>>
Finish == /\ phase = "new" /\ Len(hist) = NBatch
          /\ Emit([d |-> Dim, hist |-> hist, sel |-> sel])
          /\ phase' = "done" /\ UNCHANGED <<data, junk, acc, hist, sel, bnd>>
Next == New \/ NewLong \/ NewEmpty \/ Fill \/ Filled \/ Accumulate \/ BoundOne \/ Select \/ Again \/ Finish

\* a point is not both inside and outside, and if it is neither, it lies on a boundary
LawSplit == sel # <<>> => LET s == sel[Len(sel)] IN \A k \in DOMAIN s.pts :
    /\ ~(s.ins[k] /\ s.outs[k])
    /\ (~s.ins[k] /\ ~s.outs[k]) <=> ((\E i \in Dims : s.pts[k][i] \in {s.b[i][1], s.b[i][2]}) /\ ~s.outs[k])
\* without stretch and limits, the accumulated range covers the data and the previous range, and nothing more
LawJoin == hist # <<>> => LET h == hist[Len(hist)] IN
    (h.f = <<0, 0>> /\ h.lim = NoRange /\ h.data # <<>>) =>
       /\ \A k \in DOMAIN h.data : QLe(h.res[1][1], QI(h.data[k])) /\ QLe(QI(h.data[k]), h.res[2][1])
       /\ Given(h.prev[1]) => QLe(h.res[1][1], h.prev[1][1])
       /\ Given(h.prev[2]) => QLe(h.prev[2][1], h.res[2][1])
       /\ \/ Given(h.prev[1]) /\ h.res[1] = h.prev[1]
          \/ \E k \in DOMAIN h.data : h.res[1][1] = QI(h.data[k])
\* the limits hold
LawLimit == hist # <<>> => LET h == hist[Len(hist)] IN
    h.data # <<>> => /\ Given(h.lim[1]) => QLe(h.lim[1][1], h.res[1][1])
                     /\ Given(h.lim[2]) => QLe(h.res[2][1], h.lim[2][1])
=============================================================================
