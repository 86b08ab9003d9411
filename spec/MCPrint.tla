------------------------------ MODULE MCPrint ------------------------------
(* All trees up to MaxN nodes with all contents of the given kinds; bigger  *)
(* ones with contents taken in turns.  Emits them with the lines expected.  *)
EXTENDS PrintWriter, Shapes, TLC

CONSTANTS MaxN, Kinds,
          Families,    \* sequence of <<name, size>>
          Turns,       \* sequence of sequences of kinds, for the bigger ones
          Machine,     \* TRUE: run the writer machine as well
          EmitPrints

VARIABLES f, K, x, pos, wr
vars == <<f, K, x, pos, wr>>

Small == \E n \in 1..MaxN : \E p \in Shapes(n) :
            f = FromPar(p) /\ K \in [1..n -> Kinds]
Big == \E i \in 1..Len(Families), j \in 1..Len(Turns) :
            /\ f = FromPar(Family(Families[i][1], Families[i][2]))
            /\ K = [y \in Names(f) |-> Turns[j][(y % Len(Turns[j])) + 1]]
Init == /\ Small \/ Big
        /\ x \in IF ~Machine THEN {1} ELSE IF Size(f) <= MaxN THEN Names(f) ELSE {1, 2, Size(f) \div 2}
        /\ pos = 0 /\ wr = WriterStart

Todo == Script(f, x, K)
Next == /\ Machine /\ pos < Len(Todo)
        /\ wr' = Perform(wr, Todo[pos + 1]) /\ pos' = pos + 1
        /\ UNCHANGED <<f, K, x>>
Spec == Init /\ [][Next]_vars

L == [y \in Names(f) |-> ContentLines(K[y], y)]
\* What the machine has written in the end is what is specified.
Prints == (Machine /\ pos = Len(Todo)) => Output(wr) = PrintLines(f, x, L)
BothWays == (pos = 0 /\ Size(f) <= 40) => PrintLines(f, x, L) = PrintLinesByPieces(f, x, L)
\* Every node starts a line of its own: one first line per node of the subtree.
OwnLines == pos = 0 =>
    Len(PrintLines(f, x, L)) =
        FoldLeft(LAMBDA n, y : n + (IF L[y] = <<>> THEN 1 ELSE Len(L[y])), 0, PreOrder(f, x))
Shown(y) == Size(f) <= 40 \/ y \in {1, 2, Size(f) \div 2, Size(f)}
Emit == (EmitPrints /\ pos = 0 /\ x = 1) =>
    PrintT(ToString(<<"P", f.par, f.kids, [y \in Names(f) |-> K[y]],
                      [y \in Names(f) |-> IF Shown(y) THEN PrintLines(f, y, L) ELSE <<>>]>>))
=============================================================================
