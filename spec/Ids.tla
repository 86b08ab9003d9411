-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Ids as values.  Users keep them in maps and sort them, so they compare   *)
(* like the creations they stand for.  As the code has it: an id of width W *)
(* holds the complement of the node's number, which is therefore never      *)
(* zero, and is ordered in reverse.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* What is expected: the result of comparing the ids of the i-th and j-th node
\* ever created in a forest (or in one forest and clones of it), be they dead or alive.
Compare(i, j) == IF i < j THEN "lt" ELSE IF i = j THEN "eq" ELSE "gt"

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Max(W) == Pow2(W) - 1
\* The number k fits if it is below the maximum.
Fits(W, k) == k < Max(W)
Held(W, k) == Max(W) - k
Number(W, h) == Max(W) - h
CompareHeld(h, g) == IF g < h THEN "lt" ELSE IF g = h THEN "eq" ELSE "gt"
=============================================================================
