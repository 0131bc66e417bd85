----------------------------- MODULE BandsTrace -----------------------------
(***************************************************************************)
(* Judges intervals drawn around the middle of weighted data: v.w are the  *)
(* weights of the distinct values in increasing order; ends lo and hi are  *)
(* at 2k for the k-th of them, 2k + 1 between it and the next; the         *)
(* interval is to hold the fraction v.q / v.qden of the weight in the      *)
(* middle, to within one datum (of weight at most v.most) at each end.     *)
(***************************************************************************)
EXTENDS Num, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l
Below(v, at) == SumTo(Len(v.w), LAMBDA j : IF 2 * j < at THEN v.w[j] ELSE 0)
AtMost(v, at) == SumTo(Len(v.w), LAMBDA j : IF 2 * j <= at THEN v.w[j] ELSE 0)
\* v.qden parts in two of the total: numerator p of the fraction of the weight below
EndOK(v, at, p) == LET tot == SumSeq(v.w) IN
    /\ 2 * v.qden * (Below(v, at) - v.most) <= (p * tot) + (2 * tot)
    /\ (p * tot) - (2 * tot) <= 2 * v.qden * (AtMost(v, at) + v.most)
Clause(v) ==
    CASE v.lo > v.hi -> "the lower end is above the upper one"
      [] ~EndOK(v, v.lo, v.qden - v.q) -> "lower end"
      [] ~EndOK(v, v.hi, v.qden + v.q) -> "upper end"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
