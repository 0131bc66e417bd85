----------------------------- MODULE KdeHistory -----------------------------
(***************************************************************************)
(* Several estimates that are queried in any order.  An estimate keeps its *)
(* construction arguments, and two caches that some queries fill: its      *)
(* resolved default points, and its cumulative distribution (which needs   *)
(* the points).  No answer may depend on what was asked before, and no     *)
(* query writes the arguments, which belong to the caller and may be       *)
(* shared between the estimates.                                           *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Objs,      \* the estimates
          Ops,       \* all queries
          UsesPoints, UsesCdf, Random,   \* subsets of Ops
          Depth
VARIABLES cache,     \* [obj -> [points: fresh or "resolved", cdf: fresh or "built"]]
          args,      \* what the caller's arguments hold: a version that nothing may change
          log,       \* what was asked, in order
          answers    \* and what was answered
vars == <<cache, args, log, answers>>

Fresh == [points |-> "unresolved", cdf |-> "none"]
Init == cache = [o \in Objs |-> Fresh] /\ args = [o \in Objs |-> 0] /\ log = <<>> /\ answers = <<>>

\* a cache filled or not gives the same points and the same distribution
PointsOf(o, c) == <<"points of", o, args[o]>>
CdfOf(o, c) == <<"cdf over", PointsOf(o, c), args[o]>>
AnswerIn(o, op, c) ==
    IF op \in Random THEN <<"any sample of", o, op>>
    ELSE IF op \in UsesCdf THEN <<op, CdfOf(o, c)>>
    ELSE IF op \in UsesPoints THEN <<op, PointsOf(o, c)>>
    ELSE <<op, o, args[o]>>
After(op, c) == [points |-> IF op \in UsesPoints \/ op \in UsesCdf THEN "resolved" ELSE c.points,
                 cdf |-> IF op \in UsesCdf THEN "built" ELSE c.cdf]

Query(o, op) ==
    /\ Len(log) < Depth
    /\ log' = Append(log, <<o, op>>)
    /\ answers' = Append(answers, AnswerIn(o, op, cache[o]))
    /\ cache' = [cache EXCEPT ![o] = After(op, @)]
    /\ UNCHANGED args
Report == /\ Len(log) = Depth
          /\ Emit([log |-> log, caches |-> cache])
          /\ log' = Append(log, <<0, "end">>)
          /\ UNCHANGED <<cache, args, answers>>
Next == (\E o \in Objs, op \in Ops : Query(o, op)) \/ Report

\* every answer is that of an estimate on which nothing was asked before
Pure == \A k \in DOMAIN answers : answers[k] = AnswerIn(log[k][1], log[k][2], Fresh)
ArgsKept == args = [o \in Objs |-> 0]
Frame == [][\A o \in Objs : (\A op \in Ops : ~(log' = Append(log, <<o, op>>))) => cache'[o] = cache[o]]_vars
CdfNeedsPoints == \A o \in Objs : cache[o].cdf = "built" => cache[o].points = "resolved"
=============================================================================
