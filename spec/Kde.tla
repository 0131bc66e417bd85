-------------------------------- MODULE Kde --------------------------------
(***************************************************************************)
(* A kernel-density estimate: its construction from weighted data, and the *)
(* answers of its density queries, exactly, on an integer lattice.         *)
(*                                                                         *)
(* The kernel matrix is H = f^2 * Mat / Den with integers Mat, Den and a   *)
(* symbolic factor f (Scott's or Silverman's, else 1).  The answer at a    *)
(* point is the bag of pairs <<weight, q>>: each contributes weight times  *)
(* the kernel's radial profile at y2 = Den * q / (Det * f^2).              *)
(***************************************************************************)
EXTENDS Num

CONSTANTS
    Dim,          \* number of parameters
    Coords,       \* data coordinates
    PCoords,      \* coordinates of evaluation points
    NSet,         \* possible numbers of data points
    WSet,         \* possible weights; 1 only in runs without weights
    Weighted,     \* set of BOOLEAN: are weights given
    Bws,          \* bandwidth specifications [kind, v (over BDen), sym]
    BDen,
    Covs,         \* covariance: <<>> for that of the data, else integer matrices
    Kernels,
    Reflects,     \* per-dimension boundary pairs, may contain Nil and Auto
    StoredModes,  \* subset of {"none", "auto", "pairs"}
    QueryModes,   \* subset of {"default", "off", "auto", "pairs"}
    ParamSels,    \* set of parameter selections (sequences), <<>> for none
    NQuery,       \* number of queries
    NPoint,       \* points of each query
    Grids         \* set of BOOLEAN

Nil == -999
Auto == 999
Dims == 1..Dim

VARIABLES phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den
vars == <<phase, n, data, wts, weighted, bw, cov, kernel, stored, pts, ask, qs, mat, den>>
NoAsk == [p |-> <<>>, q |-> [mode |-> "", r |-> <<>>], g |-> FALSE]

-----------------------------------------------------------------------------
(* Construction *)

Ones(m) == [i \in 1..m |-> 1]
W(w) == SumSeq(w)
W2(w) == SumSeq([i \in DOMAIN w |-> w[i] * w[i]])
Sum1(x, w, i) == SumTo(Len(x), LAMBDA k : w[k] * x[k][i])
Sum2(x, w, i, j) == SumTo(Len(x), LAMBDA k : w[k] * x[k][i] * x[k][j])
\* the unbiased weighted covariance is CovNum / CovDen
CovNum(x, w) == [i \in Dims |-> [j \in Dims |-> W(w) * Sum2(x, w, i, j) - Sum1(x, w, i) * Sum1(x, w, j)]]
CovDen(w) == W(w) * W(w) - W2(w)

BwMat(b) == [i \in Dims |-> [j \in Dims |->
    CASE b.kind = "scalar" -> b.v[1]
      [] b.kind = "diag"   -> IF i = j THEN b.v[1] ELSE 0
      [] b.kind = "vec"    -> IF i = j THEN b.v[i] ELSE 0
      [] OTHER             -> b.v[i][j]]]

RawMat(x, w, b, c) ==
    LET cc == IF c = <<>> THEN CovNum(x, w) ELSE c
        bb == BwMat(b)
    IN [i \in Dims |-> [j \in Dims |-> cc[i][j] * bb[i][j] * bb[i][j]]]
RawDen(w, c) == (IF c = <<>> THEN CovDen(w) ELSE 1) * BDen * BDen
Entries(m) == UNION {ToSet(m[i]) : i \in DOMAIN m}
Reduced(m, d) ==
    LET g == Gcd(GcdSet(Entries(m)), d)
    IN [m |-> [i \in DOMAIN m |-> [j \in DOMAIN m |-> m[i][j] \div g]], d |-> d \div g]

LoOf(x, i) == MinSeq([k \in DOMAIN x |-> x[k][i]])
HiOf(x, i) == MaxSeq([k \in DOMAIN x |-> x[k][i]])
Resolve(x, i, r) == << IF r[1] = Auto THEN LoOf(x, i) ELSE r[1], IF r[2] = Auto THEN HiOf(x, i) ELSE r[2] >>
\* (data that are all equal have no room between automatic boundaries)
InOrder(r) == r[1] = Nil \/ r[2] = Nil \/ r[1] < r[2]
OrderOK(x, i, r) == InOrder(Resolve(x, i, r))

NoBounds(p) == [i \in 1..Len(p) |-> <<Nil, Nil>>]
AllParams == [i \in Dims |-> i]

(* The boundaries in force for a query of parameters p: its own ones, else those of construction *)
InForce(x, st, q, p) ==
    CASE q.mode = "off" -> NoBounds(p)
      [] q.mode = "auto" -> [a \in 1..Len(p) |-> Resolve(x, p[a], <<Auto, Auto>>)]
      [] q.mode = "pairs" -> [a \in 1..Len(p) |-> Resolve(x, p[a], q.r[a])]
      [] OTHER -> CASE st.mode = "none" -> NoBounds(p)
                    [] st.mode = "auto" -> [a \in 1..Len(p) |-> Resolve(x, p[a], <<Auto, Auto>>)]
                    [] OTHER -> [a \in 1..Len(p) |-> Resolve(x, p[a], st.r[p[a]])]

-----------------------------------------------------------------------------
(* Density *)

\* the datum and its mirror images, one for each given boundary, in the selected parameters
ImageSeq(d, r) ==
    <<d>> \o FlattenSeq([a \in 1..Len(d) |->
        (IF r[a][1] = Nil THEN <<>> ELSE <<[d EXCEPT ![a] = 2 * r[a][1] - d[a]]>>) \o
        (IF r[a][2] = Nil THEN <<>> ELSE <<[d EXCEPT ![a] = 2 * r[a][2] - d[a]]>>)])

\* merge contributions at equal distance, in order of distance, without those of zero weight
Merge(cs) ==
    LET good == SelectSeq(cs, LAMBDA c : c[1] # 0)
        keys == SetToSortSeq({good[i][2] : i \in DOMAIN good}, LAMBDA a, b : a < b)
    IN [i \in 1..Len(keys) |->
          << SumSeq([j \in DOMAIN good |-> IF good[j][2] = keys[i] THEN good[j][1] ELSE 0]), keys[i] >>]

Sel(v, p) == [a \in 1..Len(p) |-> v[p[a]]]
Diff(u, v) == [a \in DOMAIN u |-> u[a] - v[a]]
Bag(x, w, m, p, r, pt) ==
    LET adj == Adj(SubMat(m, p))
        cs == FlattenSeq([k \in DOMAIN x |->
                 LET im == ImageSeq(Sel(x[k], p), r)
                 IN [s \in DOMAIN im |-> << w[k], Quad(adj, Diff(pt, im[s])) >>]])
    IN Merge(cs)
Outside(r, pt) == \E a \in DOMAIN pt : (r[a][1] # Nil /\ pt[a] < r[a][1]) \/ (r[a][2] # Nil /\ pt[a] > r[a][2])
Answer(x, w, m, p, r, pt) == IF Outside(r, pt) THEN <<>> ELSE Bag(x, w, m, p, r, pt)

-----------------------------------------------------------------------------
(* Behaviour: data arrive one by one, the estimate is configured, then queried *)

Init == /\ phase = "size" /\ n = 0 /\ data = <<>> /\ wts = <<>> /\ weighted = FALSE
        /\ bw = <<>> /\ cov = <<>> /\ kernel = "" /\ stored = [mode |-> "none", r |-> <<>>]
        /\ pts = <<>> /\ ask = NoAsk /\ qs = <<>> /\ mat = <<>> /\ den = 0

ChooseSize ==
    /\ phase = "size"
    /\ \E m \in NSet, b \in Weighted : n' = m /\ weighted' = b
    /\ phase' = "data"
    /\ UNCHANGED <<data, wts, bw, cov, kernel, stored, pts, qs, mat, den, ask>>

AddDatum ==
    /\ phase = "data" /\ Len(data) < n
    /\ \E x \in [Dims -> Coords] : data' = Append(data, x)
    /\ \E w \in (IF weighted THEN WSet ELSE {1}) : wts' = Append(wts, w)
    /\ UNCHANGED <<phase, n, weighted, bw, cov, kernel, stored, pts, qs, mat, den, ask>>

Configure ==
    /\ phase = "data" /\ Len(data) = n /\ W(wts) > 0
    /\ \E b \in Bws, c \in {cc \in Covs : cc # <<>> \/ CovDen(wts) > 0} :
          LET rm == RawMat(data, wts, b, c)  red == Reduced(rm, RawDen(wts, c))
          IN /\ GcdSet(Entries(rm)) # 0
             /\ PosDef(red.m)
             /\ bw' = b /\ cov' = c /\ mat' = red.m /\ den' = red.d
    /\ phase' = "kernel"
    /\ UNCHANGED <<n, data, wts, weighted, kernel, stored, pts, qs, ask>>

ChooseKernel ==
    /\ phase = "kernel"
    /\ kernel' \in Kernels
    /\ phase' = "reflect"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, stored, pts, qs, mat, den, ask>>

ChooseReflect ==
    /\ phase = "reflect"
    /\ \E md \in StoredModes :
         IF md = "pairs"
         THEN \E r \in [Dims -> Reflects] :
                /\ \A i \in Dims : OrderOK(data, i, r[i])
                /\ stored' = [mode |-> md, r |-> r]
         ELSE /\ md = "auto" => \A i \in Dims : OrderOK(data, i, <<Auto, Auto>>)
              /\ stored' = [mode |-> md, r |-> <<>>]
    /\ phase' = "query"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, pts, qs, mat, den, ask>>

AddPoint ==
    /\ phase = "query" /\ Len(qs) < NQuery /\ Len(pts) < NPoint
    /\ \E x \in [Dims -> PCoords] : pts' = Append(pts, x)
    /\ UNCHANGED <<phase, n, data, wts, weighted, bw, cov, kernel, stored, qs, mat, den, ask>>

QueryWith(p0, q, g) ==
    LET p == IF p0 = <<>> THEN AllParams ELSE p0
        r == InForce(data, stored, q, p)
        \* the edges of a grid: a different number for each dimension
        cols == [a \in 1..Len(p) |-> [k \in 1..MaxOf(1, Len(pts) - a + 1) |-> pts[k][p[a]]]]
        where == IF g THEN Product(cols) ELSE [k \in DOMAIN pts |-> Sel(pts[k], p)]
        sm == SubMat(mat, p)
    IN [params |-> p0, mode |-> q.mode, r |-> q.r, grid |-> g, bounds |-> r,
        det |-> Det(sm), at |-> where, len |-> [a \in 1..Len(p) |-> Len(cols[a])],
        out |-> [k \in DOMAIN where |-> IF Outside(r, where[k]) THEN 1 ELSE 0],
        bags |-> [k \in DOMAIN where |-> Answer(data, wts, mat, p, r, where[k])]]

(* A query: the selection, boundaries and layout are chosen first, then answered *)
Ask ==
    /\ phase = "query" /\ Len(qs) < NQuery /\ Len(pts) = NPoint
    /\ \E p0 \in ParamSels, md \in QueryModes, g \in Grids :
        LET p == IF p0 = <<>> THEN AllParams ELSE p0 IN
         IF md = "pairs"
         THEN \E r \in [1..Len(p) -> Reflects] :
                /\ \A a \in 1..Len(p) : OrderOK(data, p[a], r[a])
                /\ ask' = [p |-> p0, q |-> [mode |-> md, r |-> r], g |-> g]
         ELSE /\ md = "auto" => \A a \in 1..Len(p) : OrderOK(data, p[a], <<Auto, Auto>>)
              /\ ask' = [p |-> p0, q |-> [mode |-> md, r |-> <<>>], g |-> g]
    /\ phase' = "answer"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, qs, mat, den>>

Reply ==
    /\ phase = "answer"
    /\ qs' = Append(qs, QueryWith(ask.p, ask.q, ask.g))
    /\ pts' = <<>> /\ ask' = NoAsk
    /\ phase' = "query"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, mat, den>>

Finish ==
    /\ phase = "query" /\ Len(qs) = NQuery
    /\ Emit([d |-> Dim, data |-> data, w |-> wts, weighted |-> weighted, bw |-> bw, bden |-> BDen, cov |-> cov,
             kernel |-> kernel, stored |-> stored, mat |-> mat, den |-> den, wsum |-> W(wts), w2 |-> W2(wts), qs |-> qs])
    /\ phase' = "done"
    /\ UNCHANGED <<n, data, wts, weighted, bw, cov, kernel, stored, pts, qs, mat, den, ask>>

Next == ChooseSize \/ AddDatum \/ Configure \/ ChooseKernel \/ ChooseReflect \/ AddPoint \/ Ask \/ Reply \/ Finish

-----------------------------------------------------------------------------
(* Laws that the answers obey, checked by TLC in every state *)

LastQ == qs[Len(qs)]
LastP == IF LastQ.params = <<>> THEN AllParams ELSE LastQ.params
HasQ == qs # <<>> /\ pts = <<>>
Redo(x, w, k) == Answer(x, w, mat, LastP, LastQ.bounds, LastQ.at[k])
TotalOf(bag) == SumSeq([i \in DOMAIN bag |-> bag[i][1]])

\* the order of the data is irrelevant
LawOrder == HasQ => \A k \in DOMAIN LastQ.at : LastQ.bags[k] = Redo(Reverse(data), Reverse(wts), k)
\* a datum may be split into two that share its weight
LawSplit == HasQ => \A k \in DOMAIN LastQ.at :
    \A h \in {v \in 0..wts[1] : v <= 2} :
       LastQ.bags[k] = Redo(<<data[1]>> \o data, <<h, wts[1] - h>> \o Tail(wts), k)
\* all images of all the data of non-zero weight contribute, or none does
Bounded(r) == SumTo(Len(r), LAMBDA a : (IF r[a][1] = Nil THEN 0 ELSE 1) + (IF r[a][2] = Nil THEN 0 ELSE 1))
LawCount == HasQ => \A k \in DOMAIN LastQ.at :
    TotalOf(LastQ.bags[k]) = IF LastQ.out[k] = 1 THEN 0 ELSE W(wts) * (1 + Bounded(LastQ.bounds))
\* the density is even about a boundary (before being zeroed outside), with a diagonal matrix
IsDiag(m) == \A i, j \in DOMAIN m : i # j => m[i][j] = 0
LawEven == (HasQ /\ IsDiag(mat)) => \A k \in DOMAIN LastQ.at : \A a \in DOMAIN LastP : \A s \in {1, 2} :
    LET r == LastQ.bounds
        only == [b \in DOMAIN r |-> IF b = a THEN [<<Nil, Nil>> EXCEPT ![s] = r[a][s]] ELSE <<Nil, Nil>>]
        pt == LastQ.at[k]
    IN r[a][s] # Nil =>
         Bag(data, wts, mat, LastP, only, pt) =
         Bag(data, wts, mat, LastP, only, [pt EXCEPT ![a] = 2 * r[a][s] - pt[a]])
\* permuting the parameters and the points together changes nothing
LawPermute == HasQ => \A k \in DOMAIN LastQ.at :
    LET r == LastQ.bounds IN
      LastQ.bags[k] = Answer(data, wts, mat, Reverse(LastP), Reverse(r), Reverse(LastQ.at[k]))
LawPosDef == mat # <<>> => \A p \in ParamSels : p # <<>> => Det(SubMat(mat, p)) > 0
=============================================================================
