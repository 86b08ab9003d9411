----------------------------- MODULE MCForest -----------------------------
(* Exhaustive checking of Forest, and emission of its whole state graph     *)
(* for the replay into the implementation.                                  *)
EXTENDS Forest

CONSTANTS EmitGraph   \* TRUE: print every transition and every state

View == w

EncF(f) == <<f.par, f.kids, f.data>>
EncW(v) == [i \in Forests |-> EncF(v[i])]

\* Expected traversals of every live node of a state.
EncTrav(f) == [x \in Names(f) |-> IF Alive(f, x) THEN TravOf(f, x) ELSE <<>>]

EmitT == EmitGraph =>
    PrintT(ToString(<<"T", EncW(w), last'.op, last'.a, last'.r, last'.out, EncW(w')>>))
EmitS == EmitGraph =>
    PrintT(ToString(<<"S", EncW(w), [i \in Forests |-> EncTrav(w[i])]>>))
=============================================================================
