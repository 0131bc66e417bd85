---------------------------- MODULE KdeCdfTrace ----------------------------
(***************************************************************************)
(* Judges recorded pairs of cumulative values, at two points of which the  *)
(* second is nowhere below the first (values are in units of 1e-9).        *)
(***************************************************************************)
EXTENDS Num, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
One == 1000000000
VARIABLE l
Clause(e) ==
    CASE e.lo < 0 \/ e.hi < 0 -> "cdf is negative"
      [] e.lo > One \/ e.hi > One -> "cdf exceeds one"
      [] e.hi < e.lo - 2 -> "cdf decreases"
      [] e.below /\ e.lo > 2 -> "cdf does not vanish below the grid"
      [] e.above /\ e.lo < One - 2 -> "cdf is not one above the grid"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
