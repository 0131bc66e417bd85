----------------------------- MODULE KernelEval -----------------------------
(***************************************************************************)
(* Evaluations of the kernels at lattice points: every behaviour selects a *)
(* kernel by one of its names, a dimension and some points.                *)
(***************************************************************************)
EXTENDS KernelLaw
CONSTANTS Dims, Names, Coords, Den, NPoint
VARIABLES phase, name, d, pts
vars == <<phase, name, d, pts>>

\* the documented selection; "" is no name at all
KernelOf(nm) == CASE nm \in {"", "gaussian"} -> "gaussian" [] nm = "box" -> "box"
                  [] nm \in {"parabola", "epanechnikov"} -> "parabola" [] OTHER -> "triweight"
Kern == KernelOf(name)
Init == phase = "choose" /\ name = "" /\ d = 0 /\ pts = <<>>
Choose == /\ phase = "choose" /\ phase' = "points"
          /\ \E nm \in Names, dd \in Dims : name' = nm /\ d' = dd
          /\ UNCHANGED pts
\* coordinate by coordinate
Full(k) == Len(pts) = k /\ (k > 0 => Len(pts[k]) = d)
AddPoint == /\ phase = "points" /\ ~Full(NPoint)
            /\ \E y \in Coords : pts' = IF Full(Len(pts)) THEN Append(pts, <<y>>)
                                         ELSE [pts EXCEPT ![Len(pts)] = Append(@, y)]
            /\ UNCHANGED <<phase, name, d>>
Y2(y) == Q(SumTo(d, LAMBDA a : y[a] * y[a]), Den * Den)
Finish == /\ phase = "points" /\ Full(NPoint) /\ phase' = "done"
          /\ Emit([name |-> name, kern |-> Kern, d |-> d, pts |-> pts, den |-> Den, finite |-> Finite(Kern),
                   y2 |-> [k \in DOMAIN pts |-> Y2(pts[k])],
                   val |-> [k \in DOMAIN pts |-> IF Finite(Kern) THEN Profile(Kern, Y2(pts[k])) ELSE <<1, 1>>],
                   inside |-> [k \in DOMAIN pts |-> IF ~Finite(Kern) \/ QLt(Y2(pts[k]), QI(1)) THEN 1
                                                    ELSE IF Y2(pts[k]) = QI(1) THEN 2 ELSE 0],
                   norm |-> IF Finite(Kern) THEN NormCoef(Kern, d) ELSE <<1, 1>>,
                   pi |-> PiPower(d)])
          /\ UNCHANGED <<name, d, pts>>
Next == Choose \/ AddPoint \/ Finish

\* laws of the integrals
LawRadial == phase = "choose" => \A k \in {0, 1, 3} : \A dd \in 1..5 :
    /\ RadialK(k, dd, QI(0)) = QI(0)
    /\ QLt(RadialK(k, dd, <<1, 3>>), RadialK(k, dd, <<1, 2>>)) /\ QLt(RadialK(k, dd, <<1, 2>>), QI(1))
\* the known closed forms: constant; 2 V/(d + 2); 48 V / ((d + 2)(d + 4)(d + 6))
LawNorm == phase = "choose" => \A dd \in 1..6 :
    /\ NormCoef("box", dd) = BallCoef(dd)
    /\ NormCoef("parabola", dd) = QMul(BallCoef(dd), Q(2, dd + 2))
    /\ NormCoef("triweight", dd) = QMul(BallCoef(dd), Q(48, (dd + 2) * (dd + 4) * (dd + 6)))
\* the more peaked kernel is the more concentrated one
LawPeaked == phase = "choose" => \A dd \in 1..4 : QLt(RadialK(0, dd, <<2, 5>>), RadialK(1, dd, <<2, 5>>)) /\ QLt(RadialK(1, dd, <<2, 5>>), RadialK(3, dd, <<2, 5>>))
\* the tables: a kernel of d dimensions seen in fewer is more concentrated, and more so in more dimensions
LawTables == phase = "choose" => \A k \in {"box", "parabola", "triweight"} : \A i \in 1..3 : \A dd \in 2..6 : \A e \in 1..(dd - 1) :
    Radial(k, dd - 1, e, i) < Radial(k, dd, e, i) /\ Radial(k, dd, e + 1, i) < Radial(k, dd, e, i)
=============================================================================
