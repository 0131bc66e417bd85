----------------------------- MODULE ContourPrep -----------------------------
(***************************************************************************)
(* Preparation of a grid of values for its contours: padding, upsampling   *)
(* and smoothing, each of which may be asked for, or refused, in several   *)
(* ways.  Stages that do nothing leave no trace; the width of smoothing is *)
(* in bins of the original grid, so that it grows with the upsampling.     *)
(* Requests with the same stages give the same contours, and a request can *)
(* be split between two calls.  Widths are in quarters of a bin.           *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Pads, Ups, Smooths,    \* the ways of asking: strings, numbers as decimal strings
          NReq
VARIABLES phase, req, stages, grid, group
vars == <<phase, req, stages, grid, group>>

\* what the options mean
PadOf(o) == CASE o \in {"none", "false", "0"} -> 0 [] o = "true" -> 1 [] o = "1" -> 1 [] o = "2" -> 2 [] OTHER -> 3
UpOf(o) == CASE o \in {"none", "false", "1"} -> 1 [] o = "true" -> 2 [] o = "2" -> 2 [] OTHER -> 3
WidthOf(o) == CASE o \in {"none", "false", "0"} -> 0 [] o = "0.5" -> 2 [] o = "0.75" -> 3 [] o = "1" -> 4 [] o = "1.5" -> 6 [] OTHER -> 8
Asks == [pad : Pads, up : Ups, smooth : Smooths]

\* a grid is described by the number of bins it has gained on each side, their fineness, and the width by which it is smoothed
Plain == [pad |-> 0, fine |-> 1, width |-> 0]
Init == phase = "choose" /\ req = <<>> /\ stages = <<>> /\ grid = Plain /\ group = <<>>
Choose == /\ phase = "choose" /\ Len(group) < NReq
          /\ \E p \in Pads : \E u \in Ups : \E s \in Smooths : req' = [pad |-> p, up |-> u, smooth |-> s]
          /\ phase' = "pad" /\ grid' = Plain /\ stages' = <<>> /\ UNCHANGED group
Pad == /\ phase = "pad" /\ phase' = "zoom"
       /\ LET p == PadOf(req.pad) IN
            /\ grid' = [grid EXCEPT !.pad = p]
            /\ stages' = IF p = 0 THEN stages ELSE Append(stages, <<"pad", p>>)
       /\ UNCHANGED <<req, group>>
Zoom == /\ phase = "zoom" /\ phase' = "smooth"
        /\ LET u == UpOf(req.up) IN
             /\ grid' = [grid EXCEPT !.fine = @ * u]
             /\ stages' = IF u = 1 THEN stages ELSE Append(stages, <<"zoom", u>>)
        /\ UNCHANGED <<req, group>>
Smooth == /\ phase = "smooth" /\ phase' = "drawn"
          /\ LET w == WidthOf(req.smooth) * grid.fine IN
               /\ grid' = [grid EXCEPT !.width = w]
               /\ stages' = IF w = 0 THEN stages ELSE Append(stages, <<"smooth", w>>)
          /\ UNCHANGED <<req, group>>
Drawn == /\ phase = "drawn" /\ phase' = "choose"
         /\ group' = Append(group, [req |-> req, stages |-> stages, grid |-> grid])
         /\ UNCHANGED <<req, stages, grid>>
Report == /\ phase = "choose" /\ Len(group) = NReq /\ phase' = "done"
          /\ Emit([group |-> group])
          /\ UNCHANGED <<req, stages, grid, group>>
Next == Choose \/ Pad \/ Zoom \/ Smooth \/ Drawn \/ Report

Finished == {group[k] : k \in DOMAIN group}
\* the stages determine the grid, and the other way around
LawSame == \A a, b \in Finished : (a.stages = b.stages) <=> (a.grid = b.grid)
\* smoothing is as wide as asked for, in units of the original bins
LawWidth == \A a \in Finished : a.grid.width = WidthOf(a.req.smooth) * a.grid.fine
\* refused in any way, no stage is left
LawOff == \A a \in Finished : (PadOf(a.req.pad) = 0 /\ UpOf(a.req.up) = 1 /\ WidthOf(a.req.smooth) = 0) <=> a.stages = <<>>
=============================================================================
