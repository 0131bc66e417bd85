---------------------------- MODULE KdeResample ----------------------------
(***************************************************************************)
(* Resampling of the estimates of Kde.tla.  The kernels are much smaller   *)
(* than the spacing of the lattice, so that every sample belongs to one    *)
(* location: that of a datum or, with boundaries, of a mirror image of a   *)
(* datum.  The law of the samples is a bag of such locations with weights  *)
(* (in eighths): those inside of the boundaries, where each boundary that  *)
(* a location lies on takes half of its kernel; kept parameters are those  *)
(* of the location, exactly.                                               *)
(***************************************************************************)
EXTENDS Kde
CONSTANTS Keeps      \* sets of parameters that may be kept
VARIABLES keep, law
rvars == <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, keep, law>>

InitR == Init /\ keep = {} /\ law = <<>>
Build == (ChooseSize \/ AddDatum \/ Configure \/ ChooseKernel \/ ChooseReflect) /\ UNCHANGED <<keep, law>>

Bnds(r, a) == r[a][1] # Nil \/ r[a][2] # Nil
InsideAll(r, x) == \A a \in DOMAIN x : (r[a][1] = Nil \/ x[a] >= r[a][1]) /\ (r[a][2] = Nil \/ x[a] <= r[a][2])
OnDims(r, x) == {a \in DOMAIN x : x[a] \in {r[a][1], r[a][2]}}
\* all images, each with the weight (in eighths) of its part inside
Parts8(x, w, r) == FlattenSeq([k \in DOMAIN x |->
    LET im == ImageSeq(x[k], r)
    IN [s \in DOMAIN im |-> << IF InsideAll(r, im[s]) THEN (8 * w[k]) \div Pow(2, Cardinality(OnDims(r, im[s]))) ELSE 0, im[s] >>]])
LawOf(x, w, r) ==
    LET ps == SelectSeq(Parts8(x, w, r), LAMBDA p : p[1] # 0)
        ls == SetToSeq({ps[i][2] : i \in DOMAIN ps})
    IN [i \in DOMAIN ls |-> [at |-> ls[i], w |-> SumSeq([j \in DOMAIN ps |-> IF ps[j][2] = ls[i] THEN ps[j][1] ELSE 0]),
                             on |-> OnDims(r, ls[i])]]

Select ==
    /\ phase = "query" /\ law = <<>>
    /\ \E md \in QueryModes, kk \in Keeps :
         IF md = "pairs"
         THEN \E r \in [Dims -> Reflects] :
                /\ \A i \in Dims : OrderOK(data, i, r[i])
                /\ ask' = [p |-> <<>>, q |-> [mode |-> md, r |-> r], g |-> FALSE] /\ keep' = kk
         ELSE ask' = [p |-> <<>>, q |-> [mode |-> md, r |-> <<>>], g |-> FALSE] /\ keep' = kk
    /\ phase' = "law"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, qs, mat, den, law>>

Force == InForce(data, stored, ask.q, AllParams)
\* the same parameter cannot be kept and reflected; correlated kernels at a corner are left out
Allowed == /\ \A a \in keep : ~Bnds(Force, a)
           /\ \A a \in Dims : InOrder(Force[a]) 
           /\ IsDiag(mat) \/ Cardinality({a \in Dims : Bnds(Force, a)}) <= 1
Derive ==
    /\ phase = "law"
    /\ IF Allowed THEN LET l == LawOf(data, wts, Force) IN law' = l /\ phase' = IF l = <<>> THEN "void" ELSE "report"
       ELSE law' = law /\ phase' = "void"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, keep>>
\* selections that are not allowed are made again
Again == phase = "void" /\ phase' = "query" /\ law' = <<>> /\ keep' = {} /\ ask' = NoAsk
         /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, qs, mat, den>>
Report ==
    /\ phase = "report" /\ phase' = "done"
    /\ Emit([d |-> Dim, data |-> data, w |-> wts, weighted |-> weighted, bw |-> bw, bden |-> BDen, cov |-> cov,
             kernel |-> kernel, stored |-> stored, mat |-> mat, den |-> den, wsum |-> W(wts), w2 |-> W2(wts),
             mode |-> ask.q.mode, r |-> ask.q.r, bounds |-> Force, keep |-> SetToSortSeq(keep, LAMBDA a, b : a < b),
             law |-> [i \in DOMAIN law |-> [at |-> law[i].at, w |-> law[i].w, on |-> SetToSortSeq(law[i].on, LAMBDA a, b : a < b)]]])
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den, keep, law>>
NextR == Build \/ Select \/ Derive \/ Again \/ Report

Has == phase = "report"
Weights8 == SumSeq([i \in DOMAIN law |-> law[i].w])
\* no weight is lost unless data lie outside or at two boundaries at once
LawMassR == Has => (Weights8 = 8 * W(wts) \/ \E k \in DOMAIN data : ~InsideAll(Force, data[k]) \/ Cardinality(OnDims(Force, data[k])) > 1)
LawInside == Has => \A i \in DOMAIN law : InsideAll(Force, law[i].at) /\ law[i].w > 0
\* without boundaries the law is that of the data
LawPlain == (Has /\ \A a \in Dims : ~Bnds(Force, a)) =>
              \A i \in DOMAIN law : law[i].w = 8 * SumTo(n, LAMBDA k : IF data[k] = law[i].at THEN wts[k] ELSE 0)
LawKept == Has => \A i \in DOMAIN law : \A a \in keep : \E k \in DOMAIN data : data[k][a] = law[i].at[a]
=============================================================================
