------------------------------ MODULE MCShapes ------------------------------
(* Emits all small trees, and members of families of bigger ones, with what *)
(* is expected of the traversals from (some of) their nodes.                *)
EXTENDS Shapes, TLC

CONSTANTS MaxN,      \* all trees up to this size
          Families,  \* sequence of <<name, size>>
          Every      \* of the bigger ones, every so many-th start node

VARIABLE f
Init == \/ \E n \in 1..MaxN : \E p \in Shapes(n) : f = FromPar(p)
        \/ \E i \in 1..Len(Families) : f = FromPar(Family(Families[i][1], Families[i][2]))
Spec == Init /\ [][FALSE]_f

Chosen(y) == Size(f) <= MaxN \/ y <= 3 \/ y >= Size(f) - 1 \/ y % Every = 0
\* Every open has its close, everything is there once.
Sane == \A y \in {z \in Names(f) : Chosen(z)} :
            LET d == Dft(f, y) s == {d[k] : k \in 1..Len(d)} IN
            Len(d) = 2 * Cardinality(Desc(f, y)) /\ s = Desc(f, y) \cup {-z : z \in Desc(f, y)}
Emit == PrintT(ToString(<<"I", Size(f), f.par, f.kids,
                          [y \in Names(f) |-> IF Chosen(y) THEN TravOf(f, y) ELSE <<>>]>>))
=============================================================================
