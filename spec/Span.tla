-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* The range of data: stretched about its centre, joined with a previous   *)
(* range, then clipped to limits.  Numbers are rationals, ranges are pairs *)
(* of sequences of at most one rational (<<>> is: not given).              *)
(***************************************************************************)
EXTENDS Num
None == <<>>
Some(q) == <<q>>
Given(o) == o # <<>>
Range2(lo, hi) == <<Some(lo), Some(hi)>>
NoRange == <<None, None>>

LowOf(s) == FoldLeft(LAMBDA a, b : QMin(a, QI(b)), QI(s[1]), s)
HighOf(s) == FoldLeft(LAMBDA a, b : QMax(a, QI(b)), QI(s[1]), s)
\* stretched by fractions f[1], f[2] (in quarters) of the half width
Stretched(lo, hi, f) ==
    LET c == QMul(Q(1, 2), QAdd(lo, hi))
    IN << QSub(c, QMul(QAdd(QI(1), Q(f[1], 4)), QSub(c, lo))), QAdd(c, QMul(QAdd(QI(1), Q(f[2], 4)), QSub(hi, c))) >>
JoinLo(x, p) == IF Given(p) THEN QMin(x, p[1]) ELSE x
JoinHi(x, p) == IF Given(p) THEN QMax(x, p[1]) ELSE x
ClipLo(x, l) == IF Given(l) THEN QMax(x, l[1]) ELSE x
ClipHi(x, l) == IF Given(l) THEN QMin(x, l[1]) ELSE x
\* nothing (the previous range itself) without data
SpanOf(s, f, prev, lim) ==
    LET st == Stretched(LowOf(s), HighOf(s), f)
    IN Range2(ClipLo(JoinLo(st[1], prev[1]), lim[1]), ClipHi(JoinHi(st[2], prev[2]), lim[2]))
=============================================================================
