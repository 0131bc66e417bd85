----------------------------- MODULE CarpetTrace -----------------------------
(***************************************************************************)
(* Judges points shown for (weighted) data.  v.n data; v.w is the rank of  *)
(* the weight of each datum, 0 for no weight; v.limit is the largest       *)
(* number of points to show (0: no limit).  v.shown is a sequence of       *)
(* points, each with the index of its datum (0: of no datum), the rank of  *)
(* its size, and (where distant data are emphasised) the rank of its       *)
(* distance from the middle (otherwise 0).                                 *)
(***************************************************************************)
EXTENDS Num, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l
Number(v) == IF v.limit = 0 THEN v.n ELSE MinOf(v.limit, v.n)
W(v, i) == v.w[v.shown[i][1]]
Size(v, i) == v.shown[i][2]
Out(v, i) == v.shown[i][3]
\* (where none is emphasised, points in order of their weights are in order of their sizes)
Sized(v) ==
    IF \A i \in DOMAIN v.shown : Out(v, i) = 0
    THEN LET o == SortSeq([i \in DOMAIN v.shown |-> i], LAMBDA a, b : W(v, a) < W(v, b))
         IN \A k \in 1..(Len(o) - 1) : /\ Size(v, o[k]) <= Size(v, o[k + 1])
                                       /\ W(v, o[k]) = W(v, o[k + 1]) => Size(v, o[k]) = Size(v, o[k + 1])
    ELSE \A i, j \in DOMAIN v.shown : (W(v, i) <= W(v, j) /\ Out(v, i) <= Out(v, j)) => Size(v, i) <= Size(v, j)
Clause(v) ==
    CASE Len(v.shown) # Number(v) -> "number of points"
      [] \E i \in DOMAIN v.shown : v.shown[i][1] = 0 -> "a point is not of the data"
      [] Cardinality({v.shown[i][1] : i \in DOMAIN v.shown}) # Len(v.shown) -> "a datum is shown twice"
      [] v.limit = 0 /\ \E i \in DOMAIN v.shown : v.shown[i][1] # i -> "points are not in the order of the data"
      [] v.sized /\ ~Sized(v) ->
            "a datum of more weight, as far out, has a smaller point"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
