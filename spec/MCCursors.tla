----------------------------- MODULE MCCursors -----------------------------
(* Every cursor on every ordered tree with up to MaxN nodes, from every     *)
(* node, with every limit, under every interleaving of its two ends.        *)
(* Emits the trees with their traversals for the harness.                   *)
EXTENDS Cursors, Shapes, TLC

CONSTANTS MaxN, EmitShapes

VARIABLES f, kind, x, m,  \* the tree, the iterator, its start node, its limit
          S,              \* what it is to yield: ItemsOf(f, kind, x, m)
          c,              \* the cursor
          it,             \* the deque
          same            \* did the last call yield the same from both?
vars == <<f, kind, x, m, S, c, it, same>>

Init ==
    /\ \E n \in 1..MaxN : \E p \in Shapes(n) : f = FromPar(p)
    /\ x \in Names(f)
    /\ kind \in Kinds
    /\ m \in IF kind = "shallow" THEN {NoLimit} \cup 0..Size(f) ELSE {NoLimit}
    /\ c = Start(f, kind, x, m)
    /\ S = ItemsOf(f, kind, x, m)
    /\ it = Fresh(S)
    /\ same = TRUE

TakeNext == LET a == CNext(f, kind, m, c) b == TakeFront(S, it, 0) IN
         c' = a.c /\ it' = b.it /\ same' = (a.res = b.res)
TakeNextBack == /\ kind \in TwoEnded
         /\ LET a == CNextBack(f, kind, m, c) b == TakeBack(S, it, 0) IN
            c' = a.c /\ it' = b.it /\ same' = (a.res = b.res)

Next == (TakeNext \/ TakeNextBack) /\ UNCHANGED <<f, kind, x, m, S>>
Spec == Init /\ [][Next]_vars

\* What was yielded is what the deque yields.
SameItems == same
\* What is pending is what the deque has at its ends.
Pending ==
    CASE kind \in TwoEnded ->
            c = IF Remaining(it) = 0 THEN None ELSE <<PeekFront(S, it), PeekBack(S, it)>>
      [] kind \in {"ancs", "anc"} ->
            (IF c = 0 THEN None ELSE <<c>>) = PeekFront(S, it)
      [] kind = "abft" ->
            AbftPeek(c) = PeekFront(S, it) /\ HintSound(it, AbftHint(c)[1], AbftHint(c)[2])
      [] OTHER -> TRUE
\* Every item occurs once, so meeting ends are recognized by equality.
Distinct == it = Fresh(S) => \A i, j \in 1..Len(S) : i # j => S[i] # S[j]

Emit == (EmitShapes /\ kind = "dft" /\ x = 1 /\ it = Fresh(S)) =>
          PrintT(ToString(<<"I", Size(f), f.par, f.kids, [y \in Names(f) |-> TravOf(f, y)]>>))
=============================================================================
