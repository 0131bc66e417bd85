------------------------------- MODULE Accept -------------------------------
(***************************************************************************)
(* Which arguments make sense.  An action (construction, density query,    *)
(* resampling, cumulative query, grid sampling) has some arguments, each   *)
(* in one of several forms; it is accepted exactly if every argument is    *)
(* of an acceptable form, and they fit together.                           *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Actions, Dims, MaxSet     \* at most MaxSet arguments differ from their plain form
VARIABLES phase, action, d, form    \* form: argument -> form, for those that are set
vars == <<phase, action, d, form>>

\* forms of each argument: <<acceptable>>, <<not acceptable>>
Forms(arg) ==
    CASE arg = "data" -> << {"plain", "list", "int", "one datum"}, {"empty", "empty rows"} >>
      [] arg = "weights" -> << {"plain", "list", "int", "some zero", "only one"},
                               {"short", "long", "matrix", "scalar", "negative", "nan", "inf", "all zero"} >>
      [] arg = "kernel" -> << {"plain", "upper case", "class", "other name"}, {"unknown name", "number", "other class", "instance of nothing"} >>
      [] arg = "bandwidth" -> << {"plain", "name", "single", "vector", "matrix", "vector of names", "zero-dim"},
                                 {"unknown name", "long vector", "large matrix", "vector with unknown name", "cube"} >>
      [] arg = "reflect" -> << {"plain", "false", "true", "none rows", "one side", "data extremes", "tuple"},
                               {"too many", "too few", "reversed", "equal", "triple", "scalar row", "single", "reversed last"} >>
      [] arg = "extrema" -> << {"plain", "half", "none rows"}, {} >>
      [] arg = "points" -> << {"plain", "default", "grid", "list", "one point"}, {"missing row", "extra row", "ragged", "words"} >>
      [] arg = "params" -> << {"first", "last in list", "all reversed"}, {"beyond", "beyond in list"} >>
      [] arg = "qreflect" -> << {"plain", "false", "true", "none rows", "one side"},
                                {"too many", "reversed", "equal", "triple", "scalar row", "reversed last"} >>
      [] arg = "keep" -> << {"last", "list of last", "false", "nothing"}, {"beyond", "reflected"} >>
      [] arg = "edges" -> << {"plain", "list", "tuple", "uneven"}, {"one less", "one more", "too many", "too few", "centers"} >>
      [] arg = "mass" -> << {"plain", "int", "list"}, {"like edges", "flat wrong", "one less"} >>
      [] OTHER -> << {"plain"}, {} >>
ArgsOf(ac) ==
    CASE ac = "construct" -> {"data", "weights", "kernel", "bandwidth", "reflect", "extrema"}
      [] ac = "density" -> {"weights", "kernel", "reflect", "points", "params", "qreflect"}
      [] ac = "pdf" -> {"points", "params", "qreflect"}
      [] ac = "function" -> {"data", "weights", "kernel", "bandwidth", "reflect", "points", "params"}
      [] ac = "resample" -> {"weights", "kernel", "reflect", "qreflect", "keep"}
      [] ac = "resample function" -> {"data", "weights", "kernel", "bandwidth", "reflect", "keep"}
      [] ac = "cdf" -> {"weights", "kernel", "points"}
      [] OTHER -> {"edges", "mass"}

Set(a) == a \in DOMAIN form
Is(a, f) == a \in DOMAIN form /\ form[a] = f
\* forms that do not exist (or mean something else) in some dimension or combination
Exists(dd, a, f) ==
    /\ ~(dd = 1 /\ f \in {"too few", "last in list", "all reversed", "missing row", "ragged", "reversed last"})
    /\ ~(a = "keep" /\ f = "reflected" /\ ~Set("qreflect") /\ ~Set("reflect"))
Combines ==
    /\ (Is("points", "default") \/ Is("points", "grid")) => d < 3
    /\ Set("params") => ~(Set("points") /\ form["points"] \in {"missing row", "extra row", "ragged", "grid", "default", "words"})
    /\ Set("params") => ~Set("qreflect")
    /\ Is("data", "one datum") => (~Set("weights") /\ Set("bandwidth") = FALSE /\ ~Set("reflect") /\ ~Set("extrema"))
    /\ Set("data") => (form["data"] \in {"empty", "empty rows"} => ~Set("weights") /\ ~Set("reflect"))
    /\ action = "cdf" => (d < 3 /\ (Set("points") => form["points"] \in {"plain", "one point", "missing row", "extra row"}) /\
                          (d = 1 => ~(Is("points", "missing row") \/ Is("points", "extra row"))))
\* the boundaries that are in force: those of the query if given
Bounding == IF Set("qreflect") THEN form["qreflect"] ELSE IF Set("reflect") THEN form["reflect"] ELSE "none"
Conflict ==
    /\ Set("keep")
    /\ CASE form["keep"] \in {"false", "nothing", "beyond"} -> FALSE
         [] form["keep"] = "reflected" -> Bounding \notin {"none", "false", "none rows"}
         \* the last parameter: bounded in its last dimension by these forms
         [] OTHER -> Bounding \in {"true"} \/ (d = 1 /\ Bounding \in {"plain", "one side", "data extremes", "tuple"})
Valid == /\ \A a \in DOMAIN form : form[a] \in Forms(a)[1] \/ (a = "keep" /\ form[a] = "reflected")
         /\ ~Conflict

Init == phase = "start" /\ action = "" /\ d = 0 /\ form = <<>>
Start == /\ phase = "start" /\ phase' = "set" /\ action' \in Actions /\ d' \in Dims /\ UNCHANGED form
\* arguments are set in alphabetic order of no importance: any
SetArg == /\ phase = "set" /\ Cardinality(DOMAIN form) < MaxSet
          /\ \E a \in ArgsOf(action) \ DOMAIN form :
               \E f \in Forms(a)[1] \cup Forms(a)[2] :
                  /\ Exists(d, a, f)
                  /\ form' = [b \in DOMAIN form \cup {a} |-> IF b = a THEN f ELSE form[b]]
          /\ UNCHANGED <<phase, action, d>>
Decide == /\ phase = "set" /\ Combines /\ phase' = "done"
          /\ Emit([action |-> action, d |-> d, form |-> form, valid |-> Valid])
          /\ UNCHANGED <<action, d, form>>
Next == Start \/ SetArg \/ Decide
\* one unacceptable argument is enough, whatever the others are
LawOneBad == (phase = "done" /\ \E a \in DOMAIN form : form[a] \in Forms(a)[2] \ {"reflected"}) => ~Valid
LawAllGood == (phase = "done" /\ \A a \in DOMAIN form : form[a] \in Forms(a)[1]) => (Valid \/ Conflict)
=============================================================================
