----------------------------- MODULE ParseEdges -----------------------------
(***************************************************************************)
(* Edges resolved for data of several dimensions: from what is given for   *)
(* all of them, or for each, or taken from the data.                       *)
(*                                                                         *)
(* A bound is <<>> when it is to be taken from the data, or <<x>>.         *)
(* What is given for the edges of a dimension is [kind, n, arr], of kind   *)
(*   "none": any number of bins within the limits;  "int": n bins;         *)
(*   "array": the edges themselves.                                        *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Dims, NData, Coords, Bins, Arrays, Pads, BinLimits, Extra, Forms
VARIABLES phase, dim, flat, data, emode, xmode, eds, exts, pad, lims, res, extra
vars == <<phase, dim, flat, data, emode, xmode, eds, exts, pad, lims, res, extra>>
None == [kind |-> "none", n |-> 0, arr |-> <<>>]

Init == /\ phase = "mode" /\ dim = 0 /\ flat = FALSE /\ data = <<>> /\ emode = "" /\ xmode = "" /\ eds = <<>> /\ exts = <<>>
        /\ pad = <<>> /\ lims = <<5, 1000>> /\ res = <<>> /\ extra = 0
ChooseMode == /\ phase = "mode"
              /\ dim' \in Dims /\ emode' \in {"one", "each"} /\ xmode' \in {"none", "pair", "each"}
              /\ extra' \in Extra
              /\ (xmode' # "each" => extra' = 0)
              /\ phase' = "more" /\ UNCHANGED <<flat, data, eds, exts, pad, lims, res>>
ChooseMore == /\ phase = "more"
              /\ flat' \in (IF dim = 1 THEN BOOLEAN ELSE {FALSE})
              /\ \E p \in Pads : pad' = p
              /\ \E b \in BinLimits : lims' = b
              /\ phase' = "data" /\ data' = << <<>> >> /\ UNCHANGED <<dim, emode, xmode, eds, exts, res, extra>>
AddDatum == /\ phase = "data" /\ Forms = {} /\ Len(data[Len(data)]) < NData
            /\ \E x \in Coords : data' = [data EXCEPT ![Len(data)] = Append(@, x)]
            /\ UNCHANGED <<phase, dim, flat, emode, xmode, eds, exts, pad, lims, res, extra>>
\* many data by a rule, possibly in order
Rule(f, r, k) == (((f[1] * k * k) + (f[2] * k) + (f[3] * r)) % f[4]) - (f[4] \div 2)
AddMany == /\ phase = "data" /\ data[Len(data)] = <<>>
           /\ \E f \in Forms : LET v == TLCEval([k \in 1..NData |-> Rule(f, Len(data), k)])
                                IN data' = [data EXCEPT ![Len(data)] = IF f[5] = 1 THEN SortSeqI(v) ELSE v]
           /\ UNCHANGED <<phase, dim, flat, emode, xmode, eds, exts, pad, lims, res, extra>>
\* data all of one value have no range
Spread(r) == MinSeq(r) < MaxSeq(r)
NextRow == /\ phase = "data" /\ Len(data[Len(data)]) = NData /\ Spread(data[Len(data)])
           /\ IF Len(data) < dim THEN data' = Append(data, <<>>) /\ UNCHANGED phase ELSE phase' = "edges" /\ UNCHANGED data
           /\ UNCHANGED <<dim, flat, emode, xmode, eds, exts, pad, lims, res, extra>>
NEds == IF emode = "one" THEN 1 ELSE dim
Given == {None} \cup {[kind |-> "int", n |-> b, arr |-> <<>>] : b \in Bins} \cup {[kind |-> "array", n |-> Len(a) - 1, arr |-> a] : a \in Arrays}
\* one array of as many edges as there are dimensions would be a number of bins for each
AddEdges == /\ phase = "edges" /\ Len(eds) < NEds
            /\ \E g \in Given : /\ (emode = "one" /\ g.kind = "array" => Len(g.arr) # dim)
                                /\ eds' = Append(eds, g)
            /\ UNCHANGED <<phase, dim, flat, data, emode, xmode, exts, pad, lims, res, extra>>
EndEdges == /\ phase = "edges" /\ Len(eds) = NEds /\ phase' = "exts"
            /\ UNCHANGED <<dim, flat, data, emode, xmode, eds, exts, pad, lims, res, extra>>
NExts == IF xmode = "none" THEN 0 ELSE IF xmode = "pair" THEN 1 ELSE dim
Bound == {<<>>} \cup {<<x>> : x \in Coords}
Lower(e, r) == IF e[1] = <<>> THEN MinSeq(r) ELSE e[1][1]
Upper(e, r) == IF e[2] = <<>> THEN MaxSeq(r) ELSE e[2][1]
Rows == IF xmode = "pair" THEN 1..dim ELSE {Len(exts) + 1}
AddExtrema == /\ phase = "exts" /\ Len(exts) < NExts
              /\ \E lo \in Bound : \E hi \in Bound :
                    /\ \A r \in Rows : Lower(<<lo, hi>>, data[r]) < Upper(<<lo, hi>>, data[r])
                    /\ exts' = Append(exts, <<lo, hi>>)
              /\ UNCHANGED <<phase, dim, flat, data, emode, xmode, eds, pad, lims, res, extra>>
Ext(d) == IF xmode = "none" THEN << <<>>, <<>> >> ELSE IF xmode = "pair" THEN exts[1] ELSE exts[d]
Eds(d) == IF emode = "one" THEN eds[1] ELSE eds[d]
\* padding: asked for, or one width if no extrema are given
Padding == IF pad # <<>> THEN pad[1] ELSE IF xmode = "none" THEN 1 ELSE 0
Resolve(g, e, r) ==
    IF g.kind = "array" THEN [fixed |-> TRUE, edges |-> g.arr, lo |-> 0, hi |-> 0, bins |-> Len(g.arr) - 1, pad |-> 0]
    ELSE [fixed |-> FALSE, edges |-> <<>>, lo |-> Lower(e, r), hi |-> Upper(e, r), bins |-> g.n, pad |-> Padding]
Finish == /\ phase = "exts" /\ Len(exts) = NExts
          /\ res' = [d \in 1..dim |-> Resolve(Eds(d), Ext(d), data[d])] /\ phase' = "done"
          /\ Emit([dim |-> dim, flat |-> flat, data |-> data, emode |-> emode, xmode |-> xmode, eds |-> eds, exts |-> exts,
                   pad |-> pad, nmin |-> lims[1], nmax |-> lims[2], extra |-> extra, res |-> res'])
          /\ UNCHANGED <<dim, flat, data, emode, xmode, eds, exts, pad, lims, extra>>
Next == ChooseMode \/ ChooseMore \/ AddDatum \/ AddMany \/ NextRow \/ AddEdges \/ EndEdges \/ AddExtrema \/ Finish

Done == phase = "done"
\* the order of the data does not matter
LawShuffle == Done => \A d \in 1..dim : Resolve(Eds(d), Ext(d), Reverse(data[d])) = res[d]
LawOrdered == Done => \A d \in 1..dim : IF res[d].fixed THEN StrictlyUp(res[d].edges) ELSE res[d].lo < res[d].hi
LawCovers == Done => \A d \in 1..dim : (~res[d].fixed /\ xmode = "none") => \A k \in 1..NData : res[d].lo <= data[d][k] /\ data[d][k] <= res[d].hi
LawGiven == Done => \A d \in 1..dim : ~res[d].fixed =>
    /\ (xmode # "none" /\ Ext(d)[1] # <<>> => res[d].lo = Ext(d)[1][1])
    /\ (xmode # "none" /\ Ext(d)[2] # <<>> => res[d].hi = Ext(d)[2][1])
    /\ (res[d].bins = 0 <=> Eds(d).kind = "none")
\* what is given for one dimension does not matter to another
LawSeparate == Done => \A d \in 1..dim : res[d] = Resolve(Eds(d), Ext(d), data[d])
=============================================================================
