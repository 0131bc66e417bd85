----------------------------- MODULE GridSample -----------------------------
(***************************************************************************)
(* Sampling a distribution on a grid: a cell is chosen by mass, and within *)
(* it a position, in each dimension independently, from the linear profile *)
(* of the cell's own corners.  Scalars are attached to samples; outliers   *)
(* are sampled where there is little mass.                                 *)
(***************************************************************************)
EXTENDS Grid
CONSTANTS Kind,        \* "sample", "scalar", "proportion", "outlier"
          MassValues,  \* masses that may be given for the cells ({}: they never are)
          FieldValues, \* values of the second field
          Thresholds   \* over 2^Dim
VARIABLES mkind, mass, field, thr
svars == <<phase, edges, vals, mkind, mass, field, thr>>

CellList == Counters(ShapeA(Dims))
NCell == ProdSeq(ShapeA(Dims))
SInit == GInit /\ mkind = "" /\ mass = <<>> /\ field = <<>> /\ thr = 0
ChooseMass == /\ phase = "ready" /\ mkind = ""
              /\ mkind' \in (IF MassValues = {} THEN {"trapz"} ELSE {"trapz", "given"})
              /\ UNCHANGED <<phase, edges, vals, mass, field, thr>>
AddMass == /\ phase = "ready" /\ mkind = "given" /\ Len(mass) < NCell
           /\ \E m \in MassValues : mass' = Append(mass, m)
           /\ UNCHANGED <<phase, edges, vals, mkind, field, thr>>
MassDone == mkind = "trapz" \/ (mkind = "given" /\ (IF phase = "ready" THEN Len(mass) = NCell ELSE FALSE))
AddField == /\ phase = "ready" /\ MassDone /\ Kind \in {"scalar", "proportion"} /\ Len(field) < ProdSeq(Shape)
            /\ \E f \in FieldValues : field' = Append(field, f)
            /\ UNCHANGED <<phase, edges, vals, mkind, mass, thr>>
FieldDone == Kind \in {"sample", "outlier"} \/ (IF phase = "ready" THEN Len(field) = ProdSeq(Shape) ELSE FALSE)
ChooseThreshold == /\ phase = "ready" /\ MassDone /\ FieldDone
                   /\ thr' \in (IF Kind = "outlier" THEN Thresholds ELSE {0})
                   /\ phase' = "law" /\ UNCHANGED <<edges, vals, mkind, mass, field>>

\* masses, times Den
Den == IF mkind = "given" THEN 1 ELSE Pow(2, Dim)
MassOf == IF mkind = "given" THEN mass ELSE Masses(vals, Dims)
Faces(v, x) == [i \in Dims |-> << Face(v, x, i, 0), Face(v, x, i, 1) >>]
\* distribution of the position within the cell (a fraction x of its width), of the linear profile from a to b
Reach(a, b, x) == IF a + b = 0 THEN x ELSE QAdd(x, QMul(Q(b - a, b + a), QMul(x, QSub(x, QI(1)))))

\* the scalar: mean over the corners, and difference of the mean over opposite faces
Ratio == LET sh == Shape IN [k \in DOMAIN vals |-> IF vals[k] = 0 THEN QI(0) ELSE Q(field[k], vals[k])]
QFace(q, x, i, side) ==
    LET bb == SelectSeq(Bits(Dims), LAMBDA b : b[i] = side)  sh == Shape
    IN QMul(Q(1, Len(bb)), QSumSeq([k \in DOMAIN bb |-> q[Index(sh, Plus(x, bb[k]))]]))
Scalar(q, x) == [mean |-> QMul(Q(1, 2), QAdd(QFace(q, x, 1, 0), QFace(q, x, 1, 1))),
                 grad |-> [i \in Dims |-> QSub(QFace(q, x, i, 1), QFace(q, x, i, 0))]]
Field == IF Kind = "scalar" THEN [k \in DOMAIN field |-> QI(field[k])] ELSE Ratio
Scalars == IF Kind \in {"scalar", "proportion"} THEN LET q == Field IN [k \in DOMAIN CellList |-> Scalar(q, CellList[k])] ELSE <<>>

\* bins above the threshold
Above(m) == m * Pow(2, Dim) > thr * Den
Inliers == [k \in DOMAIN MassOf |-> Above(MassOf[k])]
OutMass == [k \in DOMAIN MassOf |-> IF Above(MassOf[k]) THEN 0 ELSE MassOf[k]]
Coms == [k \in DOMAIN CellList |-> [i \in Dims |-> Centroid(vals, CellList[k], i)]]

Finish == /\ phase = "law"
          /\ LET m == MassOf IN
             Emit([d |-> Dim, kind |-> Kind, edges |-> edges, vals |-> vals, shape |-> Shape, mkind |-> mkind, den |-> Den,
                mass |-> m, total |-> SumSeq(m), faces |-> [k \in DOMAIN CellList |-> Faces(vals, CellList[k])],
                field |-> field, scalars |-> Scalars, thr |-> thr,
                inl |-> IF Kind = "outlier" THEN Inliers ELSE <<>>, outs |-> IF Kind = "outlier" THEN OutMass ELSE <<>>,
                coms |-> IF Kind = "outlier" THEN Coms ELSE <<>>])
          /\ phase' = "done" /\ UNCHANGED <<edges, vals, mkind, mass, field, thr>>
Keep == UNCHANGED <<mkind, mass, field, thr>>
SNext == (Build /\ Keep) \/ ChooseMass \/ AddMass \/ AddField \/ ChooseThreshold \/ Finish

InLaw == phase = "law"
\* positions: a distribution function, whose mean is the centroid:  1/2 + (b - a)/(6 (b + a))
LawReach == InLaw => \A k \in DOMAIN CellList : \A i \in Dims :
    LET f == Faces(vals, CellList[k])[i]  w == Width(i, CellList[k][i])
        fs == [q \in 0..4 |-> Reach(f[1], f[2], Q(q, 4))] IN
    /\ fs[0] = QI(0) /\ fs[4] = QI(1) /\ \A q \in 0..3 : QLe(fs[q], fs[q + 1])
    \* Simpson's rule is exact for quadratics:  mean = 1 - integral of F
    /\ LET mean == QSub(QI(1), QMul(Q(1, 6), QAdd(QAdd(fs[0], QMul(QI(4), fs[2])), fs[4])))
       IN Centroid(vals, CellList[k], i) = QAdd(QI(edges[i][CellList[k][i]]), QMul(QI(w), mean))
\* the scalar at the middle of a face is the mean over that face, and the two faces of a dimension agree with the mean
LawScalar == (InLaw /\ Kind \in {"scalar", "proportion"}) => LET q == Field IN \A k \in DOMAIN CellList : \A i \in Dims :
    LET x == CellList[k]  s == Scalar(q, x)
    IN QAdd(s.mean, QMul(Q(1, 2), s.grad[i])) = QFace(q, x, i, 1) /\ QSub(s.mean, QMul(Q(1, 2), s.grad[i])) = QFace(q, x, i, 0)
\* no mass is lost at the threshold
LawConserve == (InLaw /\ Kind = "outlier") =>
    LET m == MassOf  inl == Inliers
    IN SumSeq(OutMass) + SumTo(Len(m), LAMBDA k : IF inl[k] THEN m[k] ELSE 0) = SumSeq(m)
=============================================================================
