-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The module-level functions: a call with any set of options is the       *)
(* construction of an estimate with some of them, followed by one query    *)
(* with the others.  Every option reaches exactly one of the two.          *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Funcs, Build, Query,    \* functions; options of the construction; [function -> options of its query]
          MaxOpts, Excluded       \* pairs of options that exclude each other
VARIABLES phase, func, opts
vars == <<phase, func, opts>>

Of(f) == Build \cup Query[f]
Init == phase = "choose" /\ func = "" /\ opts = {}
Call == phase = "choose" /\ func' \in Funcs /\ phase' = "options" /\ UNCHANGED opts
\* options are added in any order
Add == /\ phase = "options" /\ Cardinality(opts) < MaxOpts
       /\ \E o \in Of(func) \ opts : /\ \A p \in opts : {o, p} \notin Excluded
                                     /\ opts' = opts \cup {o}
       /\ UNCHANGED <<phase, func>>
Return == /\ phase = "options" /\ phase' = "done"
          /\ Emit([func |-> func, build |-> SetToSeq(opts \cap Build), query |-> SetToSeq(opts \cap Query[func])])
          /\ UNCHANGED <<func, opts>>
Next == Call \/ Add \/ Return
Routed == func # "" => /\ opts = (opts \cap Build) \cup (opts \cap Query[func])
                       /\ Build \cap Query[func] = {}
=============================================================================
