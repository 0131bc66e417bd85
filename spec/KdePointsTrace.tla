--------------------------- MODULE KdePointsTrace ---------------------------
(***************************************************************************)
(* Judges recorded default evaluation points.  All the positions of one    *)
(* dimension of an event are given by their ranks, so their order (and     *)
(* equality) is exact: e the edges, dmin/dmax the extent of the data,      *)
(* lo/hi the boundary or extreme to be respected (0 if there is none),     *)
(* fixed the edges that were asked for (<<>> if none), num the number of   *)
(* bins asked for (0 if none).                                             *)
(***************************************************************************)
EXTENDS Num, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l

DimClause(d) ==
    CASE Len(d.e) < 2 -> "fewer than two edges"
      [] ~StrictlyUp(d.e) -> "edges do not increase strictly"
      [] d.fixed # <<>> /\ d.e # d.fixed -> "edges are not those given"
      [] d.num # 0 /\ Len(d.e) # d.num + 1 -> "number of edges is not that asked for"
      [] d.fixed = <<>> /\ d.lo # 0 /\ d.e[1] # d.lo -> "edges do not begin at the boundary"
      [] d.fixed = <<>> /\ d.hi # 0 /\ d.e[Len(d.e)] # d.hi -> "edges do not end at the boundary"
      [] d.fixed = <<>> /\ d.lo = 0 /\ d.e[1] > d.dmin -> "edges begin above the lowest datum"
      [] d.fixed = <<>> /\ d.hi = 0 /\ d.e[Len(d.e)] < d.dmax -> "edges end below the highest datum"
      [] OTHER -> ""
FirstBad(ds) == LET bad == SelectSeq([i \in DOMAIN ds |-> DimClause(ds[i])], LAMBDA c : c # "") IN
                IF bad = <<>> THEN "" ELSE bad[1]
Clause(v) ==
    CASE FirstBad(v.dims) # "" -> FirstBad(v.dims)
      [] v.shape # [i \in DOMAIN v.dims |-> Len(v.dims[i].e)] -> "shape of the density is not that of the grid"
      [] v.other # v.shape -> "shape with projected parameters is not that of their edges"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
