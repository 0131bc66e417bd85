----------------------------- MODULE SampleTrace -----------------------------
(***************************************************************************)
(* Judges recorded samples of a kernel-density estimate (or of a kernel    *)
(* alone): every sample is a datum, chosen with probability proportional   *)
(* to its weight, plus an independent offset that follows the kernel.      *)
(*                                                                         *)
(* An event holds counts over n samples:                                   *)
(*   cls    by location of the datum, whose weights are w                  *)
(*   shell  by shell of the whitened radius (the last one is the rest)     *)
(*   cham   by chamber (of up to four dimensions): signs and order of     *)
(*          sizes of the whitened offset                                   *)
(*   angle  for each pair of offsets, by angle from the nearest axis       *)
(*   joint  by shell and signs;  csign: by datum and sign of first offset  *)
(*   out    outside of the support of the kernel                           *)
(*   stray  whose kept parameters are not exactly those of a datum         *)
(*   pairs  among m disjoint pairs of successive samples: same sign of     *)
(*          each offset, and same datum                                    *)
(***************************************************************************)
EXTENDS KernelLaw, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
WSum(v) == SumSeq(v.w)
PCls(v, i) == (v.w[i] * Units) \div WSum(v)
PSame(v) == SumTo(Len(v.w), LAMBDA i : PCls(v, i) * v.w[i]) \div WSum(v)
Cells(v) == Pow(2, v.e)

Clause(v) ==
    CASE SumSeq(v.cls) # v.n \/ SumSeq(v.shell) # v.n \/ (v.e < 5 /\ SumSeq(v.cham) # v.n) -> "number of samples"
      [] v.stray # 0 -> "kept values are not those of one datum"
      [] v.out # 0 -> "samples outside of the support of the kernel"
      [] \E i \in DOMAIN v.w : v.w[i] = 0 /\ v.cls[i] # 0 -> "samples of a datum of zero weight"
      [] \E i \in DOMAIN v.w : ~CountOK(v.cls[i], v.n, PCls(v, i), 1) -> "data are not chosen by weight"
      [] v.e = 0 -> ""
      [] \E i \in 1..4 : ~CountOK(v.shell[i], v.n, Shell(v.kern, v.d, v.e, i), 2) -> "radial law of the kernel"
      [] \E c \in DOMAIN v.cham : ~CountOK(v.cham[c], v.n, Units \div (Cells(v) * Fact(v.e)), 1) -> "offsets are not isotropic"
      [] \E p \in DOMAIN v.angle : \E c \in 1..5 : ~CountOK(v.angle[p][c], v.n, Units \div 5, 1) -> "directions of offsets are not uniform"
      [] \E i \in 1..4 : \E c \in DOMAIN v.joint[i] :
            ~CountOK(v.joint[i][c], v.n, Shell(v.kern, v.d, v.e, i) \div Cells(v), 2) -> "radius and direction are not independent"
      [] \E i \in DOMAIN v.w : \E s \in 1..2 : ~CountOK(v.csign[i][s], v.n, PCls(v, i) \div 2, 2) -> "offset depends on the datum"
      [] \E a \in DOMAIN v.pairs : ~CountOK(v.pairs[a], v.m, Units \div 2, 1) -> "successive offsets are not independent"
      [] ~CountOK(v.same, v.m, PSame(v), Len(v.w) + 2) -> "successive data are not independent"
      [] OTHER -> ""
Init == l = 1
Next == l <= Len(Trace) /\ Verdict(l, Clause(Trace[l])) /\ l' = l + 1
=============================================================================
