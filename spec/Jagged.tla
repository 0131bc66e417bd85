------------------------------- MODULE Jagged -------------------------------
(***************************************************************************)
(* Nested lists, built by opening and closing lists and adding scalars,    *)
(* and what their shape, length and contents are.                          *)
(***************************************************************************)
EXTENDS Num
CONSTANTS MaxDepth, MaxLen, MaxLeaf, MinLeaf, AllowEmpty
VARIABLES phase, stack, leaves, tree
vars == <<phase, stack, leaves, tree>>
\* a tree is [leaf |-> TRUE, v |-> value, kids |-> <<>>] or [leaf |-> FALSE, v |-> 0, kids |-> trees]
Leaf(v) == [leaf |-> TRUE, v |-> v, kids |-> <<>>]
Node(kids) == [leaf |-> FALSE, v |-> 0, kids |-> kids]

Init == phase = "build" /\ stack = << <<>> >> /\ leaves = 0 /\ tree = Node(<<>>)
Top == stack[Len(stack)]
AddTop(t) == [stack EXCEPT ![Len(stack)] = Append(@, t)]
Scalar == /\ phase = "build" /\ Len(Top) < MaxLen /\ leaves < MaxLeaf
          /\ stack' = AddTop(Leaf(leaves + 1)) /\ leaves' = leaves + 1 /\ UNCHANGED <<phase, tree>>
Open == /\ phase = "build" /\ Len(stack) < MaxDepth /\ Len(Top) < MaxLen /\ leaves < MaxLeaf
        /\ stack' = Append(stack, <<>>) /\ UNCHANGED <<phase, leaves, tree>>
Close == /\ phase = "build" /\ Len(stack) > 1 /\ (AllowEmpty \/ Top # <<>>)
         /\ LET t == Node(Top)  s == SubSeq(stack, 1, Len(stack) - 1)
            IN stack' = [s EXCEPT ![Len(s)] = Append(@, t)]
         /\ UNCHANGED <<phase, leaves, tree>>
\* repeat the last element, with new values: regular arrays are rare otherwise
RECURSIVE Relabel(_, _), Size(_), Flat(_), Regular(_), Shape(_), Prefix(_)
Size(t) == IF t.leaf THEN 1 ELSE SumTo(Len(t.kids), LAMBDA k : Size(t.kids[k]))
Relabel(t, by) == IF t.leaf THEN Leaf(t.v + by) ELSE Node([k \in DOMAIN t.kids |-> Relabel(t.kids[k], by)])
Repeat == /\ phase = "build" /\ Top # <<>> /\ Len(Top) < MaxLen
          /\ LET t == Top[Len(Top)] IN /\ leaves + Size(t) <= MaxLeaf
                                       /\ stack' = AddTop(Relabel(t, Size(t)))
                                       /\ leaves' = leaves + Size(t)
          /\ UNCHANGED <<phase, tree>>
Done == /\ phase = "build" /\ leaves >= MinLeaf /\ Len(stack) = 1 /\ (AllowEmpty \/ Top # <<>>)
        /\ tree' = Node(Top) /\ phase' = "done" /\ UNCHANGED <<stack, leaves>>

Flat(t) == IF t.leaf THEN <<t.v>> ELSE FlattenSeq([k \in DOMAIN t.kids |-> Flat(t.kids[k])])
OneDim(t) == ~t.leaf /\ \A k \in DOMAIN t.kids : t.kids[k].leaf
\* rectangular: all elements have the same shape
Shape(t) == IF t.leaf THEN <<>> ELSE IF t.kids = <<>> THEN <<0>> ELSE <<Len(t.kids)>> \o Shape(t.kids[1])
Regular(t) == t.leaf \/ t.kids = <<>> \/
              (/\ \A k \in DOMAIN t.kids : Regular(t.kids[k])
               /\ \A k \in DOMAIN t.kids : Shape(t.kids[k]) = Shape(t.kids[1]))
\* the leading part of the shape that is the same throughout
Common(a, b) == LET m == MinOf(Len(a), Len(b))
                    k == CHOOSE c \in 0..m : /\ \A i \in 1..c : a[i] = b[i]
                                             /\ (c = m \/ a[c + 1] # b[c + 1])
                IN SubSeq(a, 1, k)
Prefix(t) == IF t.leaf THEN <<>> ELSE IF t.kids = <<>> THEN <<0>>
             ELSE <<Len(t.kids)>> \o FoldLeft(LAMBDA a, b : Common(a, Prefix(b)), Prefix(t.kids[1]), t.kids)
Emitted == /\ phase = "done"
           /\ Emit([tree |-> tree, flat |-> Flat(tree), size |-> Size(tree), one |-> OneDim(tree), regular |-> Regular(tree),
                    shape |-> IF Regular(tree) THEN Shape(tree) ELSE <<>>, prefix |-> Prefix(tree)])
           /\ phase' = "end" /\ UNCHANGED <<stack, leaves, tree>>
Next == Scalar \/ Open \/ Close \/ Repeat \/ Done \/ Emitted

Made == phase = "done"
LawFlat == Made => /\ Len(Flat(tree)) = Size(tree) /\ Flat(tree) = [k \in 1..Size(tree) |-> k]
LawOneDim == Made => (OneDim(tree) => Regular(tree) /\ Len(Shape(tree)) = 1)
LawRegular == Made => /\ (Regular(tree) => Prefix(tree) = Shape(tree) /\ ProdSeq(Shape(tree)) = Size(tree))
                      /\ (~Regular(tree) => ~OneDim(tree))
=============================================================================
