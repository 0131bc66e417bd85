---------------------------- MODULE KdeBandwidth ----------------------------
(***************************************************************************)
(* How the bandwidth, covariance and effective sample size of an estimate  *)
(* follow from its arguments.  A bandwidth entry is <<rule, num>>: rule "" *)
(* is the constant num/BDen, the named rules are factors of the effective  *)
(* sample size; everything is multiplied by the rescaling.                 *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Dim, Coords, NSet, WSet, Weighted,
          Entry,        \* set of bandwidth entries
          Shapes,       \* subset of {"one", "vec", "mat"}
          Diags,        \* set of BOOLEAN
          Rescales,     \* subset of {"none", "scalar", "vec", "mat"}
          RVals,        \* rescaling values (over BDen)
          Covs,         \* given covariances, <<>> for none
          Neffs,        \* given effective sizes, 0 for none
          Reps,         \* how many times the data are given
          BDen

Dims == 1..Dim
VARIABLES phase, n, reps, weighted, data, wts, shape, diag, entries, resc, cov, neff
vars == <<phase, n, reps, weighted, data, wts, shape, diag, entries, resc, cov, neff>>

W(w) == SumSeq(w)
W2(w) == SumSeq([i \in DOMAIN w |-> w[i] * w[i]])
Sum1(x, w, i) == SumTo(Len(x), LAMBDA k : w[k] * x[k][i])
Sum2(x, w, i, j) == SumTo(Len(x), LAMBDA k : w[k] * x[k][i] * x[k][j])
CovNum(x, w, i, j) == W(w) * Sum2(x, w, i, j) - Sum1(x, w, i) * Sum1(x, w, j)
\* of r copies of the data
CovDen(w, r) == r * W(w) * W(w) - W2(w)
CovR(x, w, r, i, j) == Q(r * CovNum(x, w, i, j), CovDen(w, r))
CovQ(x, w, i, j) == CovR(x, w, reps, i, j)

NeffR(w, r) == Q(r * W(w) * W(w), W2(w))
NeffOf(w, given) == IF given # 0 THEN QI(given) ELSE NeffR(w, reps)

\* position of an entry in the list in which it was given
EntryAt(i, j) ==
    CASE shape = "one" -> IF diag /\ i # j THEN <<"", 0>> ELSE entries[1]
      [] shape = "vec" -> IF i = j THEN entries[i] ELSE <<"", 0>>
      [] OTHER         -> entries[(i - 1) * Dim + j]
NEntries == CASE shape = "one" -> 1 [] shape = "vec" -> Dim [] OTHER -> Dim * Dim
RescAt(i, j) == CASE resc.kind = "none" -> BDen [] resc.kind = "scalar" -> resc.v[1]
                  [] resc.kind = "vec" -> IF i = j THEN resc.v[i] ELSE BDen   \* of a diagonal bandwidth, all others vanish
                  [] OTHER -> resc.v[(i - 1) * Dim + j]
\* the entry and its rescaling, as <<rule, numerator over BDen^2>>
BandwidthAt(i, j) == << EntryAt(i, j)[1], (IF EntryAt(i, j)[1] = "" THEN EntryAt(i, j)[2] ELSE BDen) * RescAt(i, j) >>
CovAt(i, j) == IF cov = <<>> THEN CovQ(data, wts, i, j) ELSE QI(cov[i][j])

Init == phase = "size" /\ n = 0 /\ reps = 1 /\ weighted = FALSE /\ data = <<>> /\ wts = <<>> /\ shape = "" /\ diag = FALSE
        /\ entries = <<>> /\ resc = [kind |-> "none", v |-> <<>>] /\ cov = <<>> /\ neff = 0

Size == /\ phase = "size" /\ \E m \in NSet, b \in Weighted, r \in Reps : n' = m /\ weighted' = b /\ reps' = r
        /\ phase' = "data" /\ UNCHANGED <<data, wts, shape, diag, entries, resc, cov, neff>>
Datum == /\ phase = "data" /\ Len(data) < n
         /\ \E x \in [Dims -> Coords] : data' = Append(data, x)
         /\ \E w \in (IF weighted THEN WSet ELSE {1}) : wts' = Append(wts, w)
         /\ UNCHANGED <<phase, n, reps, weighted, shape, diag, entries, resc, cov, neff>>
Shape == /\ phase = "data" /\ Len(data) = n /\ CovDen(wts, reps) > 0
         /\ \A i \in Dims : CovNum(data, wts, i, i) > 0
         /\ \E s \in Shapes, g \in Diags : shape' = s /\ diag' = g
         /\ phase' = "entries" /\ UNCHANGED <<n, reps, weighted, data, wts, entries, resc, cov, neff>>
AddEntry == /\ phase = "entries" /\ Len(entries) < NEntries
            /\ \E e \in Entry : entries' = Append(entries, e)
            /\ UNCHANGED <<phase, n, reps, weighted, data, wts, shape, diag, resc, cov, neff>>
Rescale == /\ phase = "entries" /\ Len(entries) = NEntries
           /\ \E k \in {r \in Rescales : r = "vec" => (shape = "vec" \/ (shape = "one" /\ diag))} : resc' = [kind |-> k, v |-> <<>>]
           /\ \E c \in Covs, m \in Neffs : cov' = c /\ neff' = m
           /\ phase' = "resc" /\ UNCHANGED <<n, reps, weighted, data, wts, shape, diag, entries>>
NResc == CASE resc.kind = "none" -> 0 [] resc.kind = "scalar" -> 1 [] resc.kind = "vec" -> Dim [] OTHER -> Dim * Dim
AddResc == /\ phase = "resc" /\ Len(resc.v) < NResc
           /\ \E v \in RVals : resc' = [resc EXCEPT !.v = Append(@, v)]
           /\ UNCHANGED <<phase, n, reps, weighted, data, wts, shape, diag, entries, cov, neff>>
Finish == /\ phase = "resc" /\ Len(resc.v) = NResc
          /\ Emit([d |-> Dim, reps |-> reps, data |-> data, w |-> wts, weighted |-> weighted, shape |-> shape, diag |-> diag,
                   entries |-> entries, resc |-> resc, gcov |-> cov, gneff |-> neff, bden |-> BDen,
                   neff |-> NeffOf(wts, neff),
                   bw |-> [i \in Dims |-> [j \in Dims |-> BandwidthAt(i, j)]],
                   cov |-> [i \in Dims |-> [j \in Dims |-> CovAt(i, j)]]])
          /\ phase' = "done" /\ UNCHANGED <<n, reps, weighted, data, wts, shape, diag, entries, resc, cov, neff>>
Next == Size \/ Datum \/ Shape \/ AddEntry \/ Rescale \/ AddResc \/ Finish

-----------------------------------------------------------------------------
Ready == phase \in {"entries"} /\ entries = <<>>
Scaled(k) == [i \in DOMAIN wts |-> k * wts[i]]
\* a common factor of the weights changes neither the covariance nor the effective size
LawScale == Ready => \A i, j \in Dims :
    /\ CovQ(data, wts, i, j) = CovQ(data, Scaled(3), i, j)
    /\ NeffOf(wts, 0) = NeffOf(Scaled(3), 0)
LawNeff == Ready => /\ QLe(NeffOf(wts, 0), QI(reps * Len(data)))
                    /\ QLe(QI(1), NeffOf(wts, 0))
                    /\ (\A i \in DOMAIN wts : wts[i] = wts[1]) => NeffOf(wts, 0) = QI(reps * Len(data))
LawOrder == Ready => \A i, j \in Dims : CovQ(data, wts, i, j) = CovQ(Reverse(data), Reverse(wts), i, j)
LawSymmetric == Ready => \A i, j \in Dims : CovQ(data, wts, i, j) = CovQ(data, wts, j, i)
\* giving the data several times is the same as a longer list
Thrice(x) == x \o x \o x
LawRepeat == (Ready /\ reps = 3) => /\ NeffR(Thrice(wts), 1) = NeffR(wts, 3)
                                   /\ \A i, j \in Dims : CovR(Thrice(data), Thrice(wts), 1, i, j) = CovQ(data, wts, i, j)
LawZero == Ready => \A i, j \in Dims : CovQ(data, wts, i, j) = CovQ(Append(data, data[1]), Append(wts, 0), i, j)
=============================================================================
