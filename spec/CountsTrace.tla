----------------------------- MODULE CountsTrace -----------------------------
(***************************************************************************)
(* Judges counts c of n independent draws in classes of probabilities p    *)
(* (in Units, each to within r), by Bernstein's inequality.                *)
(***************************************************************************)
EXTENDS KernelLaw, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(v) ==
    CASE Len(v.c) # Len(v.p) -> "classes"
      [] SumSeq(v.c) # v.n -> "number of samples"
      [] \E i \in DOMAIN v.p : ~CountOK(v.c[i], v.n, v.p[i], v.r) -> "share of the samples"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
