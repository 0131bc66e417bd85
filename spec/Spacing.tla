------------------------------ MODULE Spacing ------------------------------
(***************************************************************************)
(* Evenly spaced values: subdivided edges, bins, and values spanning data. *)
(* The same arithmetic holds for the logarithms of values.                 *)
(***************************************************************************)
EXTENDS Span
CONSTANTS Coords, MaxData, Nums, Dexes, Stretches, Limits
VARIABLES phase, xs, kind, num, res, opt
vars == <<phase, xs, kind, num, res, opt>>

Init == phase = "fill" /\ xs = <<>> /\ kind = "" /\ num = 0 /\ res = <<>> /\ opt = <<>>
Fill == /\ phase = "fill" /\ Len(xs) < MaxData
        /\ \E x \in Coords : xs' = Append(xs, x)
        /\ UNCHANGED <<phase, kind, num, res, opt>>
Choose == /\ phase = "fill" /\ Len(xs) >= 1
          /\ kind' \in {"subdivide", "bins", "spacing"} /\ num' \in Nums
          /\ phase' = "compute" /\ UNCHANGED <<xs, res, opt>>
\* k equal steps from a to b: the values 0 .. k
Even(a, b, k) == [j \in 1..(k + 1) |-> QAdd(a, QMul(Q(j - 1, k), QSub(b, a)))]
Pieces(k) == [i \in 1..(Len(xs) - 1) |-> LET e == Even(QI(xs[i]), QI(xs[i + 1]), k + 1) IN [j \in 1..(k + 1) |-> e[j]]]
Subdivide == /\ phase = "compute" /\ kind = "subdivide"
             /\ res' = Append(FlattenSeq(Pieces(num)), QI(xs[Len(xs)]))
             /\ phase' = "ready" /\ UNCHANGED <<xs, kind, num, opt>>
Bins == /\ phase = "compute" /\ kind = "bins"
        /\ IF xs[1] = xs[Len(xs)] \/ num < 1 THEN res' = <<>> ELSE res' = Even(QI(xs[1]), QI(xs[Len(xs)]), num)
        /\ phase' = "ready" /\ UNCHANGED <<xs, kind, num, opt>>
Opt(l) == IF l = 99 THEN None ELSE Some(QI(l))
\* number of values if none is given, in log: dex values per factor of ten (coordinates are quarters of that)
Ceil(q) == -((-q[1]) \div q[2])
AutoNum(sp, dex) == LET w == QMul(Q(dex, 4), QSub(sp[2][1], sp[1][1])) IN Ceil(w) + 1
Space == /\ phase = "compute" /\ kind = "spacing"
         /\ \E f \in Stretches : \E l \in Limits : \E dex \in Dexes :
              LET sp == SpanOf(xs, f, NoRange, << Opt(l[1]), Opt(l[2]) >>)
                  n == IF num > 1 THEN num ELSE AutoNum(sp, dex)
              IN /\ opt' = [f |-> f, lim |-> << Opt(l[1]), Opt(l[2]) >>, dex |-> dex, span |-> << sp[1][1], sp[2][1] >>,
                            n |-> n, lin |-> Even(sp[1][1], sp[2][1], IF num > 1 THEN num - 1 ELSE 19), exact |-> QMul(Q(dex, 4), QSub(sp[2][1], sp[1][1]))[2] = 1]
                 \* (twenty values if none is given, otherwise)
                 /\ res' = IF QLt(sp[1][1], sp[2][1]) /\ n > 1 THEN Even(sp[1][1], sp[2][1], n - 1) ELSE <<>>
         /\ phase' = "ready" /\ UNCHANGED <<xs, kind, num>>
Finish == /\ phase = "ready"
          /\ Emit([kind |-> kind, xs |-> xs, num |-> num, res |-> res, opt |-> opt])
          /\ phase' = "done" /\ UNCHANGED <<xs, kind, num, res, opt>>
Next == Fill \/ Choose \/ Subdivide \/ Bins \/ Space \/ Finish

Ready == phase = "ready"
\* every original value is kept, in order, with the same number of values between any two
LawKept == (Ready /\ kind = "subdivide") => /\ Len(res) = (Len(xs) - 1) * (num + 1) + 1
                                            /\ \A i \in DOMAIN xs : res[(i - 1) * (num + 1) + 1] = QI(xs[i])
LawOrder == (Ready /\ kind = "subdivide" /\ StrictlyUp(xs)) => \A i \in 1..(Len(res) - 1) : QLt(res[i], res[i + 1])
\* steps are equal, from end to end
LawEven == (Ready /\ kind # "subdivide" /\ Len(res) > 1) =>
    /\ \A i \in 1..(Len(res) - 2) : QSub(res[i + 1], res[i]) = QSub(res[i + 2], res[i + 1])
    /\ kind = "bins" => (res[1] = QI(xs[1]) /\ res[Len(res)] = QI(xs[Len(xs)]))
    /\ kind = "spacing" => (res[1] = opt.span[1] /\ res[Len(res)] = opt.span[2])
=============================================================================
