------------------------------- MODULE MCIds -------------------------------
(***************************************************************************)
(* A forest hands out ids of width W, to be compared with all ids it has    *)
(* handed out before, removals in between.  Also emits how given pairs of    *)
(* the ids of the real types compare.                                       *)
(***************************************************************************)
EXTENDS Ids, FiniteSets, TLC

CONSTANTS W,        \* a small width, all of whose ids are created
          Near      \* numbers all of whose pairs are compared

VARIABLES held,     \* what the ids handed out hold, in order
          dead,     \* the nodes removed (at most two: they stay comparable)
          pair      \* a pair to be emitted, or <<>>
vars == <<held, dead, pair>>

Init == /\ held = <<>> /\ dead = {}
        /\ pair \in {<<>>} \cup (Near \X Near)
Create == /\ pair = <<>> /\ Fits(W, Len(held))
          /\ held' = Append(held, Held(W, Len(held)))
          /\ UNCHANGED <<dead, pair>>
Remove == /\ pair = <<>> /\ Cardinality(dead) < 2
          /\ \E x \in 1..Len(held) \ dead : dead' = dead \cup {x}
          /\ UNCHANGED <<held, pair>>
Next == Create \/ Remove
Spec == Init /\ [][Next]_vars

N == 1..Len(held)
NeverZero == \A k \in N : held[k] > 0           \* so that "no id" costs nothing
ComeBack == \A k \in N : Number(W, held[k]) = k - 1
OneNodeOneId == \A k, m \in N : (held[k] = held[m]) = (k = m)
LikeCreation == \A k, m \in N : CompareHeld(held[k], held[m]) = Compare(k, m)
\* The order is total and agrees with equality.
Total == \A k, m \in N :
    /\ (CompareHeld(held[k], held[m]) = "eq") = (held[k] = held[m])
    /\ (CompareHeld(held[k], held[m]) = "lt") = (CompareHeld(held[m], held[k]) = "gt")
Transitive == dead = {} => \A k, m, n \in N :
    CompareHeld(held[k], held[m]) = "lt" /\ CompareHeld(held[m], held[n]) = "lt"
        => CompareHeld(held[k], held[n]) = "lt"
\* No id is handed out a second time, not even after a removal.
NoReuse == [][\A k \in N : held'[k] = held[k] /\ \A m \in (Len(held) + 1)..Len(held') : held'[m] # held[k]]_vars

Emit == pair # <<>> => PrintT(ToString(<<"I", pair[1], pair[2], Compare(pair[1], pair[2])>>))
=============================================================================
