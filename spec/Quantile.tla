------------------------------ MODULE Quantile ------------------------------
(***************************************************************************)
(* Weighted quantiles: the curve through (cumulative weight less half the  *)
(* own weight, over the total; value) of the sorted data, constant beyond  *)
(* its ends.  Several rows of data, each with its own curve.               *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Rows, Coords, Weights, Sizes, PDen, NAsk, Long, Forms
VARIABLES phase, n, weighted, data, wts, ask
vars == <<phase, n, weighted, data, wts, ask>>
\* data and wts: sequences over rows; ask: fractions, over PDen

Init == phase = "size" /\ n = 0 /\ weighted = FALSE /\ data = <<>> /\ wts = <<>> /\ ask = <<>>
ChooseSize == /\ phase = "size" /\ Long = {} /\ n' \in Sizes /\ weighted' \in BOOLEAN /\ data' = << <<>> >> /\ wts' = << <<>> >>
              /\ phase' = "fill" /\ UNCHANGED ask
\* values of different weight in a row are different: the order of equal ones would matter
AddValue == /\ phase = "fill" /\ Len(data[Len(data)]) < n
            /\ \E x \in Coords : \E w \in (IF weighted THEN Weights ELSE {1}) :
                 LET r == Len(data) IN
                 /\ \A k \in DOMAIN data[r] : data[r][k] = x => wts[r][k] = w
                 /\ data' = [data EXCEPT ![r] = Append(@, x)] /\ wts' = [wts EXCEPT ![r] = Append(@, w)]
            /\ UNCHANGED <<phase, n, weighted, ask>>
\* many values are given by a rule (of four numbers f, and whether they are in order); their weights are one of the value
Rule(f, k) == ((f[1] * k * k) + (f[2] * k) + f[3]) % f[4]
Many(f, num) == LET v == TLCEval([k \in 1..num |-> Rule(f, k)]) IN IF f[5] = 0 THEN v ELSE SortSeqI(v)
Heavy(x) == 1 + (x % 4)
ChooseLong == /\ phase = "size" /\ n' \in Long /\ weighted' \in BOOLEAN
              /\ \E f \in Forms : data' = [r \in 1..Rows |-> Many(<< f[1] + r, f[2], f[3], f[4], f[5] >>, n')]
              /\ wts' = [r \in 1..Rows |-> [k \in 1..n' |-> IF weighted' THEN Heavy(data'[r][k]) ELSE 1]]
              /\ phase' = "ask" /\ UNCHANGED ask
NextRow == /\ phase = "fill" /\ Len(data[Len(data)]) = n
           /\ IF Len(data) < Rows THEN data' = Append(data, <<>>) /\ wts' = Append(wts, <<>>) /\ UNCHANGED phase
              ELSE phase' = "ask" /\ UNCHANGED <<data, wts>>
           /\ UNCHANGED <<n, weighted, ask>>
Ask == /\ phase = "ask" /\ Len(ask) < NAsk
       /\ \E p \in 0..PDen : ask' = Append(ask, p)
       /\ UNCHANGED <<phase, n, weighted, data, wts>>

Order(xs) == SortSeq([k \in DOMAIN xs |-> k], LAMBDA a, b : xs[a] < xs[b] \/ (xs[a] = xs[b] /\ a < b))
Curve(xs, ws) ==
    LET o == TLCEval(Order(xs))  tot == TLCEval(SumSeq(ws))
        cum == TLCEval(FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + ws[k]), <<0>>, o))
    IN TLCEval([k \in DOMAIN o |-> << Q((2 * cum[k]) + ws[o[k]], 2 * tot), xs[o[k]] >>])
Value(c, p) ==
    CASE QLe(p, c[1][1]) -> QI(c[1][2])
      [] QLe(c[Len(c)][1], p) -> QI(c[Len(c)][2])
      [] OTHER -> LET k == CHOOSE j \in 1..(Len(c) - 1) : QLe(c[j][1], p) /\ QLt(p, c[j + 1][1])
                  IN QAdd(QI(c[k][2]), QMul(QDiv(QSub(p, c[k][1]), QSub(c[k + 1][1], c[k][1])), QI(c[k + 1][2] - c[k][2])))
Answers(xs, ws, ps) == LET c == Curve(xs, ws) IN TLCEval([k \in DOMAIN ps |-> Value(c, Q(ps[k], PDen))])
Finish == /\ phase = "ask" /\ Len(ask) = NAsk
          /\ Emit([rows |-> Rows, n |-> n, weighted |-> weighted, data |-> data, w |-> wts, ask |-> ask, pden |-> PDen,
                   curve |-> [r \in 1..Rows |-> Curve(data[r], wts[r])],
                   ans |-> [r \in 1..Rows |-> Answers(data[r], wts[r], ask)],
                   \* quartiles
                   q13 |-> [r \in 1..Rows |-> LET c == Curve(data[r], wts[r]) IN << Value(c, Q(1, 4)), Value(c, Q(3, 4)) >>]])
          /\ phase' = "done" /\ UNCHANGED <<n, weighted, data, wts, ask>>
Next == ChooseSize \/ ChooseLong \/ AddValue \/ NextRow \/ Ask \/ Finish

Asked == phase = "done"
LawRange == Asked => \A r \in 1..Rows : LET a == Answers(data[r], wts[r], ask) IN
    \A k \in DOMAIN ask : QLe(QI(MinSeq(data[r])), a[k]) /\ QLe(a[k], QI(MaxSeq(data[r])))
LawMonotone == Asked => \A r \in 1..Rows : LET a == Answers(data[r], wts[r], ask) IN
    \A j, k \in DOMAIN ask : ask[j] <= ask[k] => QLe(a[j], a[k])
\* independent of order, and of the scale of the weights; opposite for opposite data
LawOrder == Asked => \A r \in 1..Rows :
    /\ Answers(Reverse(data[r]), Reverse(wts[r]), ask) = Answers(data[r], wts[r], ask)
    /\ Answers(data[r], [k \in DOMAIN wts[r] |-> 3 * wts[r][k]], ask) = Answers(data[r], wts[r], ask)
    /\ LET neg == Answers([k \in DOMAIN data[r] |-> -data[r][k]], wts[r], [k \in DOMAIN ask |-> PDen - ask[k]])
           a == Answers(data[r], wts[r], ask)
       IN \A k \in DOMAIN ask : neg[k] = QNeg(a[k])
=============================================================================
