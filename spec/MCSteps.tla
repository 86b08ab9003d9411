------------------------------ MODULE MCSteps ------------------------------
(* One step of Forest from forests that are given: all forests up to MaxTree *)
(* nodes, and single trees from families of bigger ones.  The second forest  *)
(* (a target of clones and copies) is a small one.                           *)
EXTENDS Forest, Shapes

CONSTANTS MaxTree,   \* all ordered forests up to this size
          Families,  \* sequence of <<name, size>>
          Every,     \* of the bigger ones, every so many-th node is an argument
          Ops        \* the operations of interest

View == w

RECURSIVE ForestShapes(_)
ForestShapes(n) == IF n = 1 THEN {<<0>>}
                   ELSE UNION {{Append(p, q) : q \in Up(p, n - 1) \cup {0}} : p \in ForestShapes(n - 1)}

Labelled(f, i) == [f EXCEPT !.data = [k \in 1..Size(f) |-> 1000 * i + k]]

Begin(p) == /\ w = [i \in Forests |-> Labelled(FromPar(IF i = 1 THEN p ELSE <<0, 1, 0>>), i)]
            /\ last = [op |-> "init", a |-> <<>>, r |-> {"ok"}, out |-> <<>>]
SInit == \/ \E n \in 1..MaxTree : \E p \in ForestShapes(n) : Begin(p)
         \/ \E i \in 1..Len(Families) : Begin(Family(Families[i][1], Families[i][2]))

Args(i) == LET n == Size(w[i]) IN
           IF n <= MaxTree THEN 1..n
           ELSE {1, 2, 3, n \div 2, n - 1, n} \cup {y \in 1..n : y % Every = 0}
\* After so many calls something panics.
Counts(n) == IF n <= MaxTree THEN 1..n ELSE 1..n \cap {1, 2, n \div 3, n - 1, n}

SNext ==
    /\ last.op = "init"
    /\ \/ "root" \in Ops /\ CreateRoot(1)
       \/ "cins" \in Ops /\ \E y \in Args(1), pos \in Positions : CreateInsert(1, pos, y)
       \/ "ins" \in Ops /\ \E x, y \in Args(1), pos \in Positions : Insert(1, x, pos, y)
       \/ "det" \in Ops /\ \E x \in Args(1) : Detach(1, x)
       \/ "dets" \in Ops /\ \E x \in Args(1) : DetachSingle(1, x)
       \/ "rem" \in Ops /\ \E x \in Args(1) : RemoveTree(1, x)
       \/ "remp" \in Ops /\ \E x \in Args(1) : \E k \in Counts(Cardinality(Desc(w[1], x))) : RemovePanic(1, x, k)
       \/ "clone" \in Ops /\ \E x \in Args(1), i \in Forests : Clone(1, x, i)
       \/ "clonep" \in Ops /\ \E x \in Args(1), i \in Forests :
             \E k \in Counts(Cardinality(Desc(w[1], x))) : ClonePanic(1, x, i, k)
       \/ "copy" \in Ops /\ \E i \in Forests : CopyForest(1, i)
       \/ "set" \in Ops /\ \E x \in Args(1) : SetDatum(1, x)

SSpec == SInit /\ [][SNext]_vars

\* What Forest proves of all its steps, where it is not too expensive to look at.
Small == Size(w[1]) <= MaxTree
StepProps == [][Small => AllActionProps]_vars
SmallWellFormed == Small => LinksWellFormed
SmallNeighbours == Small => NeighboursAgree

EncF(f) == <<f.par, f.kids, f.data>>
EncW(v) == [i \in Forests |-> EncF(v[i])]
EmitT == PrintT(ToString(<<"T", EncW(w), last'.op, last'.a, last'.r, last'.out, EncW(w')>>))
EmitB == last.op = "init" => PrintT(ToString(<<"B", EncW(w)>>))
=============================================================================
