------------------------------ MODULE CovMaps ------------------------------
(***************************************************************************)
(* Covariance matrices built from integer lower-triangular factors, their  *)
(* effect on integer data, and keeping variables out of a matrix.          *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dim, Diags, Offs, Coords, Sizes, Forms
VARIABLES phase, low, data, n, keep
vars == <<phase, low, data, n, keep>>
Dims == 1..Dim

Init == phase = "matrix" /\ low = <<>> /\ data = <<>> /\ n = 0 /\ keep = {}
\* rows of the factor, one after the other
AddRow == /\ phase = "matrix" /\ Len(low) < Dim
          /\ \E dg \in Diags : \E of \in [1..Len(low) -> Offs] :
               low' = Append(low, [j \in Dims |-> IF j <= Len(low) THEN of[j] ELSE IF j = Len(low) + 1 THEN dg ELSE 0])
          /\ UNCHANGED <<phase, data, n, keep>>
MatrixDone == /\ phase = "matrix" /\ Len(low) = Dim /\ n' \in Sizes /\ phase' = "data" /\ UNCHANGED <<low, data, keep>>
AddDatum == /\ phase = "data" /\ Forms = {} /\ Len(data) < n
            /\ \E x \in [Dims -> Coords] : data' = Append(data, x)
            /\ UNCHANGED <<phase, low, n, keep>>
\* many data by a rule
Rule(f, i, k) == (((f[1] * k * k) + (f[2] * k * i) + (k \div (i + f[3])) + i) % 7) - 3
AddMany == /\ phase = "data" /\ data = <<>>
           /\ \E f \in Forms : data' = TLCEval([k \in 1..n |-> [i \in Dims |-> Rule(f, i, k)]])
           /\ UNCHANGED <<phase, low, n, keep>>
ChooseKeep == /\ phase = "data" /\ Len(data) = n /\ keep' \in SUBSET Dims /\ phase' = "ready" /\ UNCHANGED <<low, data, n>>

Cov == [i \in Dims |-> [j \in Dims |-> SumTo(Dim, LAMBDA k : low[i][k] * low[j][k])]]
Mapped(x) == [i \in Dims |-> SumTo(Dim, LAMBDA k : low[i][k] * x[k])]
\* sample covariance, times n (n - 1)
CovNum(xs) == LET sums == TLCEval([i \in Dims |-> SumTo(n, LAMBDA k : xs[k][i])])
              IN TLCEval([i \in Dims |-> [j \in Dims |-> (n * SumTo(n, LAMBDA k : xs[k][i] * xs[k][j])) - (sums[i] * sums[j])]])
MapCov(m) == TLCEval([i \in Dims |-> [j \in Dims |-> SumTo(Dim, LAMBDA a : SumTo(Dim, LAMBDA b : low[i][a] * m[a][b] * low[j][b]))]])
KeepVars(m, ks) == [i \in Dims |-> [j \in Dims |-> IF i \in ks \/ j \in ks THEN 0 ELSE m[i][j]]]
MappedData == TLCEval([k \in DOMAIN data |-> Mapped(data[k])])
Finish == /\ phase = "ready"
          /\ Emit([d |-> Dim, low |-> low, cov |-> Cov, data |-> data, mapped |-> MappedData, covnum |-> CovNum(data),
                   mapcov |-> MapCov(CovNum(data)), keep |-> keep, kept |-> KeepVars(Cov, keep), n |-> n,
                   rank |-> IF Dim <= 3 /\ n < 100 THEN Det(CovNum(data)) # 0 ELSE TRUE])
          /\ phase' = "done" /\ UNCHANGED <<low, data, n, keep>>
Next == AddRow \/ AddMany \/ MatrixDone \/ AddDatum \/ ChooseKeep \/ Finish

Ready == phase = "ready"
\* a linear map changes the covariance of data exactly as that of distributions
LawCov == Ready => LET m == MappedData IN CovNum(m) = MapCov(CovNum(data))
LawPositive == (Ready /\ Dim <= 3) => PosDef(Cov)
LawKeep == Ready => LET k == KeepVars(Cov, keep) IN \A i, j \in Dims :
    k[i][j] = k[j][i] /\ (k[i][j] # Cov[i][j] => (i \in keep \/ j \in keep))
=============================================================================
