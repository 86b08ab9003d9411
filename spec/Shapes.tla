------------------------------- MODULE Shapes -------------------------------
(* Single trees as parent sequences; children in the order of their names.  *)
EXTENDS ForestOps

FromPar(p) ==
    [par  |-> p,
     kids |-> [y \in 1..Len(p) |-> SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : p[k] = y)],
     data |-> [y \in 1..Len(p) |-> 0]]

RECURSIVE Up(_, _)
Up(p, y) == IF p[y] = 0 THEN {y} ELSE {y} \cup Up(p, p[y])

\* All ordered trees with n nodes, named in document order.
RECURSIVE Shapes(_)
Shapes(n) == IF n = 1 THEN {<<0>>}
             ELSE UNION {{Append(p, q) : q \in Up(p, n - 1)} : p \in Shapes(n - 1)}

\* Families of bigger ones.
Family(name, n) ==
    [k \in 1..n |->
        IF k = 1 THEN 0
        ELSE CASE name = "star"   -> 1
               [] name = "path"   -> k - 1
               [] name = "binary" -> k \div 2
               [] name = "ternary" -> (k + 1) \div 3
               [] name = "comb"   -> IF k % 2 = 0 THEN k - 1 ELSE k - 2          \* leaves first, then the spine
               [] name = "rcomb"  -> IF k % 2 = 0 THEN IF k = 2 THEN 1 ELSE k - 2 ELSE IF k = 3 THEN 1 ELSE k - 3 \* spine first
               [] name = "broom"  -> IF k <= n \div 2 THEN k - 1 ELSE n \div 2    \* a path ending in a star
               [] name = "fork"   -> IF k = 2 THEN 1 ELSE IF k % 2 = 1 /\ k > 3 THEN k - 2 ELSE IF k = 3 THEN 1 ELSE k - 2 \* two paths
               [] name = "fan"    -> IF k <= 3 \/ k = n THEN 1 ELSE 3           \* a hub between two leaves
               [] name = "trees"  -> IF k % 3 = 1 THEN 0 ELSE k - ((k - 1) % 3)   \* a forest of small ones
               [] name = "mixed"  -> ((k * k * 7 + k * 3) % (k - 1)) + 1]
=============================================================================
