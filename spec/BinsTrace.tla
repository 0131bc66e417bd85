------------------------------ MODULE BinsTrace ------------------------------
(***************************************************************************)
(* Judges many one-dimensional samples of a kernel, counted in narrow bins *)
(* of their absolute values: [(i-1)/m, i/m) for the finite kernels,        *)
(* [(i-1)/4, i/4) for the Gaussian (whose last bin is open, and beyond 4). *)
(***************************************************************************)
EXTENDS KernelLaw, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l
Within(v, i) == IF i = 0 THEN 0 ELSE IF i = Len(v.c) THEN Units
                ELSE IF Finite(v.kern) THEN Parts(RadialK(Order(v.kern), 1, <<i, v.m>>)) ELSE 2 * PhiQ(i) - Units
Clause(v) ==
    CASE SumSeq(v.c) # v.n -> "number of samples"
      [] \E i \in DOMAIN v.c : ~CountOK(v.c[i], v.n, Within(v, i) - Within(v, i - 1), 2) -> "distribution within the kernel"
      \* 63.3 in a million samples are expected beyond four standard deviations
      [] v.kern = "gaussian" /\ v.n = 1000000 /\ (v.far < 10 \/ v.far > 140) -> "tails of the kernel"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
