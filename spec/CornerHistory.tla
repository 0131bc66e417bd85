--------------------------- MODULE CornerHistory ----------------------------
(***************************************************************************)
(* Successive drawing into corner plots: what each call draws, and the     *)
(* limits of the axes after it.                                            *)
(*                                                                         *)
(* A range is in twentieths: data or edges from a to b are shown from      *)
(* 20a - (b - a) to 20b + (b - a).  Ranges of automatic edges are not      *)
(* known here; they are named by their data.                               *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dim, Data, Edges, Given, MaxCalls, Settings, Asks
\* Data: sequence of [lo, hi]: for each parameter, the least and greatest value;  Edges likewise, of explicit edges
VARIABLES plots, log, cur
vars == <<plots, log, cur>>
Methods == {"plot", "clean", "hist", "plot_kde", "plot_data"}
Stretch(a, b) == <<(20 * a) - (b - a), (20 * b) + (b - a)>>
NoLimits == [known |-> [p \in 1..Dim |-> <<>>], auto |-> {}]
\* a limit that was given stays unless asked for
Init == /\ log = <<>> /\ cur = <<>>
        /\ \E g1 \in BOOLEAN : \E g2 \in BOOLEAN :
             plots = [c \in 1..2 |-> LET g == IF c = 1 THEN g1 ELSE g2 IN
                        [given |-> g, lims |-> IF g THEN [NoLimits EXCEPT !.known = [p \in 1..Dim |-> <<20 * Given[p][1], 20 * Given[p][2]>>]]
                                               ELSE NoLimits]]
ByKde(m) == m \in {"plot", "clean", "plot_kde"}
\* options that are given with a call: 1 yes, 2 no, others: not given
Names1 == <<"density", "confidence", "carpet", "hist">>
Names2 == <<"hist", "contour", "scatter", "median", "mask", "below">>
Options(names, f) == FoldLeft(LAMBDA sq, k : IF f[k] \in {1, 2} THEN Append(sq, <<names[k], f[k] = 1>>) ELSE sq, <<>>, [k \in DOMAIN names |-> k])
\* what is drawn unless options say otherwise
Default1(m) == CASE m = "plot" -> [density |-> TRUE, confidence |-> TRUE, carpet |-> TRUE, hist |-> FALSE]
                 [] m = "plot_kde" -> [density |-> TRUE, confidence |-> TRUE, carpet |-> FALSE, hist |-> FALSE]
                 [] m = "clean" -> [density |-> TRUE, confidence |-> FALSE, carpet |-> FALSE, hist |-> FALSE]
                 [] m = "hist" -> [density |-> FALSE, confidence |-> FALSE, carpet |-> FALSE, hist |-> TRUE]
                 [] OTHER -> [density |-> FALSE, confidence |-> FALSE, carpet |-> TRUE, hist |-> TRUE]
\* mask: 0 no, 1 yes, 2 if there are points below something
Default2(m) == CASE m = "plot" -> [hist |-> TRUE, contour |-> TRUE, scatter |-> TRUE, median |-> TRUE, mask |-> 2, below |-> TRUE]
                 [] m = "plot_kde" -> [hist |-> FALSE, contour |-> TRUE, scatter |-> FALSE, median |-> TRUE, mask |-> 2, below |-> TRUE]
                 [] m = "clean" -> [hist |-> FALSE, contour |-> TRUE, scatter |-> FALSE, median |-> TRUE, mask |-> 0, below |-> FALSE]
                 [] m = "hist" -> [hist |-> TRUE, contour |-> FALSE, scatter |-> FALSE, median |-> TRUE, mask |-> 0, below |-> FALSE]
                 [] OTHER -> [hist |-> TRUE, contour |-> FALSE, scatter |-> TRUE, median |-> TRUE, mask |-> 1, below |-> TRUE]
Set(rec, opts) == FoldLeft(LAMBDA r, o : [r EXCEPT ![o[1]] = IF o[1] = "mask" THEN (IF o[2] THEN 1 ELSE 0) ELSE o[2]], rec, opts)
Drawn1(m, o) == Set(Default1(m), o)
Drawn2(m, o) == LET d == Set(Default2(m), o)
                IN [d EXCEPT !.mask = IF @ = 2 THEN (IF d.scatter /\ (d.hist \/ d.contour) THEN 1 ELSE 0) ELSE @]
\* a call, chosen part by part
Begin == /\ cur = <<>> /\ Len(log) < MaxCalls
         /\ \E c \in 1..2 : \E m \in Methods : cur' = <<c, m>>
         /\ UNCHANGED <<plots, log>>
ChooseData == /\ Len(cur) = 2 /\ \E d \in DOMAIN Data : \E e \in {0} \cup DOMAIN Edges : cur' = cur \o <<d, e>>
              /\ UNCHANGED <<plots, log>>
Choose1 == /\ Len(cur) = 4 /\ \E f \in [DOMAIN Names1 -> Settings] : cur' = Append(cur, Options(Names1, f))
           /\ UNCHANGED <<plots, log>>
\* (option by option; there are many)
Choose2 == /\ Len(cur) = 5 /\ \E f \in [1..3 -> Settings] : cur' = Append(cur, f)
           /\ UNCHANGED <<plots, log>>
Choose3 == /\ Len(cur) = 6 /\ \E f \in [4..6 -> Settings] :
                 cur' = SubSeq(cur, 1, 5) \o <<Options(Names2, [k \in DOMAIN Names2 |-> IF k < 4 THEN cur[6][k] ELSE f[k]]), "rest">>
           /\ UNCHANGED <<plots, log>>
\* number of fractions asked for; 0 for the default
ChooseRest == /\ Len(cur) = 7 /\ \E l \in {"none", "yes", "no"} : \E q \in Asks : cur' = SubSeq(cur, 1, 6) \o <<l, q>>
              /\ UNCHANGED <<plots, log>>
Union(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<MinOf(a[1], b[1]), MaxOf(a[2], b[2])>>
Span(m, d, e) == IF ~ByKde(m) THEN [known |-> [p \in 1..Dim |-> Stretch(Data[d][p][1], Data[d][p][2])], auto |-> {}]
                  ELSE IF e # 0 THEN [known |-> [p \in 1..Dim |-> Stretch(Edges[e][p][1], Edges[e][p][2])], auto |-> {}]
                  ELSE [NoLimits EXCEPT !.auto = {d}]
Join(a, b) == [known |-> [p \in 1..Dim |-> Union(a.known[p], b.known[p])], auto |-> a.auto \cup b.auto]
Draw == /\ Len(cur) = 8
        /\ LET c == cur[1]  m == cur[2]  d == cur[3]  e == cur[4]  a == cur[5]  b == cur[6]  l == cur[7]  q == cur[8]
               set == l = "yes" \/ (l = "none" /\ ~plots[c].given)
               lims == IF set THEN Join(plots[c].lims, Span(m, d, e)) ELSE plots[c].lims
           IN /\ plots' = [plots EXCEPT ![c].lims = lims]
              /\ log' = Append(log, [corner |-> c, method |-> m, data |-> d, edges |-> e, opt1 |-> a, opt2 |-> b, limit |-> l, set |-> set,
                                     lims |-> [known |-> lims.known, auto |-> SetToSeq(lims.auto)], one |-> Drawn1(m, a), two |-> Drawn2(m, b), asked |-> q, bands |-> IF q = 0 THEN 4 ELSE q])
        /\ cur' = <<>>
Finish == /\ cur = <<>> /\ Len(log) = MaxCalls /\ cur' = <<"end">>
          /\ Emit([given |-> [c \in 1..2 |-> plots[c].given], log |-> log])
          /\ UNCHANGED <<plots, log>>
Next == Begin \/ ChooseData \/ Choose1 \/ Choose2 \/ Choose3 \/ ChooseRest \/ Draw \/ Finish

\* limits only ever widen, until nothing is outside them
Within(a, b) == \A p \in 1..Dim : a.known[p] = <<>> \/ (b.known[p] # <<>> /\ b.known[p][1] <= a.known[p][1] /\ a.known[p][2] <= b.known[p][2])
LawWiden == [][\A c \in 1..2 : Within(plots[c].lims, plots'[c].lims) /\ plots[c].lims.auto \subseteq plots'[c].lims.auto]_vars
LawFixed == [][\A c \in 1..2 : (plots[c].given /\ Len(cur) = 8 /\ cur[7] = "none") => plots'[c].lims = plots[c].lims]_vars
\* a call changes only the plot it is made on
LawOther == [][\A c \in 1..2 : (Len(cur) = 8 /\ cur[1] # c) => plots'[c] = plots[c]]_vars
\* what is drawn does not depend on the calls before
LawSame == \A i, j \in DOMAIN log : (/\ log[i].method = log[j].method /\ log[i].opt1 = log[j].opt1 /\ log[i].opt2 = log[j].opt2)
                                    => log[i].one = log[j].one /\ log[i].two = log[j].two
\* all data shown on an axis whose limits are automatic lie within them
LawCover == \A c \in 1..2 : \A k \in DOMAIN log :
    (log[k].corner = c /\ log[k].set /\ ~ByKde(log[k].method)) =>
        \A p \in 1..Dim : plots[c].lims.known[p][1] <= 20 * Data[log[k].data][p][1] /\ 20 * Data[log[k].data][p][2] <= plots[c].lims.known[p][2]
LawOrdered == \A c \in 1..2 : \A p \in 1..Dim : plots[c].lims.known[p] = <<>> \/ plots[c].lims.known[p][1] < plots[c].lims.known[p][2]
=============================================================================
