---------------------------- MODULE CornerPanels ----------------------------
(***************************************************************************)
(* A corner plot of Dim parameters: which panel shows what, where it is in *)
(* the figure, its labels, limits and ticks; and values marked in it.      *)
(*                                                                         *)
(* Panel <<i, j>> with j < i shows parameter j horizontally against i      *)
(* vertically, <<i, i>> parameter i alone (the last one turned sideways    *)
(* when rotated); those with j > i are hidden.  The panel of the last row  *)
(* and first column lies in the corner called the origin.                  *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dims, Coords, Ways, MaxMarks
VARIABLES phase, dim, top, right, rotate, way, labels, limits, ticks, marks
vars == <<phase, dim, top, right, rotate, way, labels, limits, ticks, marks>>
\* optional values: <<>> or <<x>>
Opt == {<<>>} \cup {<<x>> : x \in Coords}

Init == /\ phase = "figure" /\ dim = 0 /\ top = FALSE /\ right = FALSE /\ rotate = FALSE /\ way = ""
        /\ labels = FALSE /\ limits = <<>> /\ ticks = <<>> /\ marks = <<>>
ChooseFigure == /\ phase = "figure" /\ dim' \in Dims /\ top' \in BOOLEAN /\ right' \in BOOLEAN /\ rotate' \in BOOLEAN
                /\ way' \in Ways /\ phase' = "labels" /\ UNCHANGED <<labels, limits, ticks, marks>>
ChooseLabels == /\ phase = "labels" /\ labels' \in BOOLEAN
                /\ \/ phase' = "limits"
                   \/ phase' = "ticks"          \* automatic limits
                /\ UNCHANGED <<dim, top, right, rotate, way, limits, ticks, marks>>
AddLimits == /\ phase = "limits" /\ Len(limits) < dim
             /\ \E lo \in Coords : \E hi \in Coords : lo < hi /\ limits' = Append(limits, <<lo, hi>>)
             /\ phase' = (IF Len(limits) = dim - 1 THEN "ticks" ELSE "limits")
             /\ UNCHANGED <<dim, top, right, rotate, way, labels, ticks, marks>>
AddTicks == /\ phase = "ticks" /\ Len(ticks) < dim
            /\ \E some \in BOOLEAN : ticks' = Append(ticks, IF some THEN << <<1 + Len(ticks), 3 + (2 * Len(ticks))>> >> ELSE <<>>)
            /\ UNCHANGED <<phase, dim, top, right, rotate, way, labels, limits, marks>>
NoTicks == /\ phase = "ticks" /\ (ticks = <<>> \/ Len(ticks) = dim)
           /\ phase' = (IF limits = <<>> THEN "done" ELSE "mark")
           /\ UNCHANGED <<dim, top, right, rotate, way, labels, limits, ticks, marks>>
\* values marked: for each parameter a target, and an upper and a lower limit, each optional
AddMarks == /\ phase = "mark" /\ (marks # <<>> => Len(marks[Len(marks)]) = dim) /\ Len(marks) < MaxMarks
            /\ marks' = Append(marks, <<>>) /\ UNCHANGED <<phase, dim, top, right, rotate, way, labels, limits, ticks>>
MarkOne == /\ phase = "mark" /\ marks # <<>> /\ Len(marks[Len(marks)]) < dim
           /\ \E t \in Opt : \E u \in Opt : \E l \in {<<>>, u} :
                marks' = [marks EXCEPT ![Len(marks)] = Append(@, [target |-> t, upper |-> u, lower |-> IF l = <<>> THEN <<>> ELSE <<l[1] - 1>>])]
           /\ UNCHANGED <<phase, dim, top, right, rotate, way, labels, limits, ticks>>
EndMarks == /\ phase = "mark" /\ (marks # <<>> => Len(marks[Len(marks)]) = dim)
            /\ phase' = "done" /\ UNCHANGED <<dim, top, right, rotate, way, labels, limits, ticks, marks>>

\* parameter shown horizontally and vertically; 0 for none
Turned(i, j) == rotate /\ i = j /\ j = dim
XPar(i, j) == IF j > i \/ Turned(i, j) THEN 0 ELSE j
YPar(i, j) == IF j > i THEN 0 ELSE IF i = j THEN (IF Turned(i, j) THEN j ELSE 0) ELSE i
Row(i) == IF top /\ way # "axes" THEN dim + 1 - i ELSE i
Col(j) == IF right /\ way # "axes" THEN dim + 1 - j ELSE j
XLabel(i, j) == IF labels /\ i = dim THEN XPar(i, j) ELSE 0
YLabel(i, j) == IF ~labels \/ j # 1 THEN 0 ELSE IF i = 1 /\ dim > 1 THEN 0 ELSE YPar(i, j)
Panel(i, j) ==
    [i |-> i, j |-> j, shown |-> j <= i, row |-> Row(i), col |-> Col(j), x |-> XPar(i, j), y |-> YPar(i, j),
     xlabel |-> XLabel(i, j), ylabel |-> YLabel(i, j),
     xtop |-> IF i = dim /\ top THEN 1 ELSE 0, yright |-> IF j = 1 /\ i # 1 /\ right THEN 1 ELSE 0]
Panels == [k \in 1..(dim * dim) |-> Panel(((k - 1) \div dim) + 1, ((k - 1) % dim) + 1)]
Emitted == /\ phase = "done" /\ phase' = "end"
           /\ Emit([dim |-> dim, top |-> top, right |-> right, rotate |-> rotate, way |-> way, labels |-> labels,
                    limits |-> limits, ticks |-> ticks, marks |-> marks, panels |-> Panels])
           /\ UNCHANGED <<dim, top, right, rotate, way, labels, limits, ticks, marks>>
Next == ChooseFigure \/ ChooseLabels \/ AddLimits \/ AddTicks \/ NoTicks \/ AddMarks \/ MarkOne \/ EndMarks \/ Emitted

Done == phase = "end"
Shown == {k \in 1..(dim * dim) : Panels[k].shown}
\* every pair of parameters has one panel, and every parameter one of its own
LawPairs == Done => \A p, q \in 1..dim : p < q =>
    Cardinality({k \in Shown : Panels[k].x = p /\ Panels[k].y = q}) = 1 /\ Cardinality({k \in Shown : Panels[k].x = q /\ Panels[k].y = p}) = 0
LawSingle == Done => \A p \in 1..dim : Cardinality({k \in Shown : {Panels[k].x, Panels[k].y} = {0, p}}) = 1
\* panels lie apart; those of one column (row) that show a parameter horizontally (vertically) show the same
LawPlaces == Done => /\ \A k, m \in 1..(dim * dim) : k # m => <<Panels[k].row, Panels[k].col>> # <<Panels[m].row, Panels[m].col>>
                     /\ \A k, m \in Shown : /\ (Panels[k].col = Panels[m].col /\ Panels[k].x # 0 /\ Panels[m].x # 0 => Panels[k].x = Panels[m].x)
                                            /\ (Panels[k].row = Panels[m].row /\ Panels[k].y # 0 /\ Panels[m].y # 0 => Panels[k].y = Panels[m].y)
\* with labels, each parameter is named on the outside
LawNamed == Done => (labels => \A p \in 1..dim : \E k \in Shown : Panels[k].xlabel = p \/ Panels[k].ylabel = p)
LawOrigin == Done => (way # "axes" => \E k \in Shown : /\ Panels[k].row = (IF top THEN 1 ELSE dim)
                                                      /\ Panels[k].col = (IF right THEN dim ELSE 1)
                                                      /\ Panels[k].i = dim /\ Panels[k].j = 1)
=============================================================================
