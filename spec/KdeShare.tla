------------------------------ MODULE KdeShare ------------------------------
(***************************************************************************)
(* Shares of the reflected density in the cells of a partition of the      *)
(* space between the boundaries, for kernels that reach over them: each    *)
(* datum contributes itself and one mirror image for each boundary, and    *)
(* the whole is normalised over the inside.  Kernels are Gaussian (in each *)
(* dimension), or of finite order in the only dimension that is looked at  *)
(* (see KernelLaw: a three-dimensional kernel of order k is one of order   *)
(* k + 1 in each of its dimensions).                                       *)
(***************************************************************************)
EXTENDS KernelLaw
CONSTANTS Dim,      \* dimensions looked at (1 or 2)
          Full,     \* dimensions of the kernel: Dim, or 3
          Coords, NSet, WSet, Kernels, Hs, Bounds, Cuts
Nil == -999
Dims == 1..Dim
VARIABLES phase, n, data, wts, kern, h, bnd, shares
vars == <<phase, n, data, wts, kern, h, bnd, shares>>

Init == phase = "start" /\ n = 0 /\ data = <<>> /\ wts = <<>> /\ kern = "" /\ h = <<>> /\ bnd = <<>> /\ shares = <<>>
Start == /\ phase = "start" /\ phase' = "data"
         /\ n' \in NSet /\ kern' \in Kernels
         /\ UNCHANGED <<data, wts, h, bnd, shares>>
AddDatum == /\ phase = "data" /\ Len(data) < n
            /\ \E x \in [Dims -> Coords], w \in WSet : data' = Append(data, x) /\ wts' = Append(wts, w)
            /\ UNCHANGED <<phase, n, kern, h, bnd, shares>>
Configure == /\ phase = "data" /\ Len(data) = n /\ phase' = "share"
             /\ SumSeq(wts) > 0
             /\ h' \in [Dims -> Hs] /\ bnd' \in [Dims -> Bounds]
             /\ UNCHANGED <<n, data, wts, kern, shares>>

\* boundaries, and the cuts between them
Edges(a) == LET in == SelectSeq(Cuts, LAMBDA c : (bnd[a][1] = Nil \/ c > bnd[a][1]) /\ (bnd[a][2] = Nil \/ c < bnd[a][2]))
            IN <<bnd[a][1]>> \o in \o <<bnd[a][2]>>
Cdf(a, x, c, low) ==
    IF x = Nil THEN (IF low THEN 0 ELSE Units)
    ELSE IF kern = "gaussian" THEN PhiQ(((x - c) * 4) \div h[a])
    ELSE CdfK(Order(kern) + (Full - Dim) \div 2, Q(x - c, h[a]))
Images(x) == <<x>> \o FlattenSeq([a \in Dims |->
                (IF bnd[a][1] = Nil THEN <<>> ELSE <<[x EXCEPT ![a] = 2 * bnd[a][1] - x[a]]>>) \o
                (IF bnd[a][2] = Nil THEN <<>> ELSE <<[x EXCEPT ![a] = 2 * bnd[a][2] - x[a]]>>)])
\* part (in Units) of the kernel at c in the j-th interval of dimension a
In1(a, e, j, c) == Cdf(a, e[j + 1], c, FALSE) - Cdf(a, e[j], c, TRUE)
Parts2(p, q) == IF p = 0 \/ q = 0 THEN 0 ELSE (p * q) \div Units
CellMass(es, cell) == SumTo(n, LAMBDA k :
    LET im == Images(data[k]) IN
    wts[k] * SumTo(Len(im), LAMBDA s :
        IF Dim = 1 THEN In1(1, es[1], cell[1], im[s][1])
        ELSE Parts2(In1(1, es[1], cell[1], im[s][1]), In1(2, es[2], cell[2], im[s][2]))))
Share ==
    /\ phase = "share" /\ phase' = "report"
    /\ LET es == [a \in Dims |-> Edges(a)]
           cells == Product([a \in Dims |-> [j \in 1..(Len(es[a]) - 1) |-> j]])
           ms == [c \in DOMAIN cells |-> CellMass(es, cells[c])]
           tot == SumSeq(ms)
           err == SumSeq(wts) * Len(Images(data[1]))
       IN shares' = [edges |-> es, total |-> tot, mass |-> ms,
                     p |-> IF tot = 0 THEN <<>> ELSE [c \in DOMAIN ms |-> Digits(ms[c], tot, 4)],
                     r |-> IF tot = 0 THEN 0 ELSE 2 + Digits(2 * err, tot, 4)]
    /\ UNCHANGED <<n, data, wts, kern, h, bnd>>
Report == /\ phase = "report" /\ phase' = "done"
          /\ Emit([d |-> Dim, full |-> Full, data |-> data, w |-> wts, kern |-> kern, h |-> h, bnd |-> bnd, edges |-> shares.edges,
                   p |-> shares.p, r |-> shares.r, total |-> shares.total])
          /\ UNCHANGED <<n, data, wts, kern, h, bnd, shares>>
Next == Start \/ AddDatum \/ Configure \/ Share \/ Report

Has == phase = "report"
\* the shares are complete
LawSum == (Has /\ shares.p # <<>>) => LET s == SumSeq(shares.p) IN s <= Units /\ s >= Units - Len(shares.p)
\* one boundary in all, and all data inside: nothing is lost nor gained
NBounds == SumTo(Dim, LAMBDA a : (IF bnd[a][1] = Nil THEN 0 ELSE 1) + (IF bnd[a][2] = Nil THEN 0 ELSE 1))
LawConserved == (Has /\ NBounds <= 1) =>
    NumAbs(shares.total - Units * SumSeq(wts)) <= 2 * n * MaxSeq(wts) * Len(shares.mass)
\* two boundaries that are further away than the kernel reaches conserve as well
LawWide == (Has /\ Dim = 1 /\ Finite(kern) /\ bnd[1][1] # Nil /\ bnd[1][2] # Nil
            /\ bnd[1][2] - bnd[1][1] >= h[1] /\ \A k \in 1..n : data[k][1] >= bnd[1][1] /\ data[k][1] <= bnd[1][2]) =>
    NumAbs(shares.total - Units * SumSeq(wts)) <= 2 * n * MaxSeq(wts) * Len(shares.mass)
=============================================================================
