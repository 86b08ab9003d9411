------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Several readers of one forest: each is a pointer machine of Cursors that *)
(* looks at the same links.  They take their steps in any order.  Whatever  *)
(* the order, each yields what it yields alone, and the forest stays what   *)
(* it is; so a schedule is no more than a word of <<reader, end>>, and the  *)
(* replay may run every word with every pair of readers.                    *)
(***************************************************************************)
EXTENDS Cursors, Shapes, TLC

CONSTANTS MaxN,     \* nodes of the tree
          Steps,    \* length of the words
          EmitWords

Readers == {1, 2}

VARIABLES f,        \* the tree
          def,      \* reader -> <<kind, start, limit>>
          c,        \* reader -> its pointers
          got,      \* reader -> what it has yielded
          word      \* who took a step, from which end
vars == <<f, def, c, got, word>>

Definitions(g) == {<<k, x, m>> : k \in Kinds \ {"shallow"}, x \in Names(g), m \in {NoLimit}}
                  \cup {<<"shallow", x, m>> : x \in Names(g), m \in {1}}

Init == /\ \E n \in 1..MaxN : \E p \in Shapes(n) : f = FromPar(p)
        /\ def \in [Readers -> Definitions(f)]
        /\ c = [r \in Readers |-> Start(f, def[r][1], def[r][2], def[r][3])]
        /\ got = [r \in Readers |-> <<>>]
        /\ word = <<>>

Take(r, end) ==
    /\ Len(word) < Steps
    /\ end = "back" => def[r][1] \in TwoEnded
    /\ LET a == IF end = "front" THEN CNext(f, def[r][1], def[r][3], c[r]) ELSE CNextBack(f, def[r][1], def[r][3], c[r]) IN
       c' = [c EXCEPT ![r] = a.c] /\ got' = [got EXCEPT ![r] = Append(@, a.res)]
    /\ word' = Append(word, <<r, end>>)
    /\ UNCHANGED <<f, def>>

Next == \E r \in Readers, end \in {"front", "back"} : Take(r, end)
Spec == Init /\ [][Next]_vars

\* What the reader yields if the others do not step at all.
Alone(r) ==
    LET S == ItemsOf(f, def[r][1], def[r][2], def[r][3])
        own == SelectSeq(word, LAMBDA s : s[1] = r)
    IN  FoldLeft(LAMBDA acc, s : LET b == IF s[2] = "front" THEN TakeFront(S, acc[1], 0) ELSE TakeBack(S, acc[1], 0)
                                 IN  <<b.it, Append(acc[2], b.res)>>,
                 <<Fresh(S), <<>>>>, own)[2]
Undisturbed == \A r \in Readers : got[r] = Alone(r)
\* Steps of one reader concern nobody else, and never the forest.
OwnOnly == [][f' = f /\ Cardinality({r \in Readers : c'[r] # c[r] \/ got'[r] # got[r]}) <= 1]_vars

\* Every word once: from the smallest tree.
Emit == (EmitWords /\ Len(word) = Steps /\ Size(f) = 1 /\ \A r \in Readers : def[r][1] = "dft") =>
           PrintT(ToString(<<"W", [k \in 1..Steps |-> <<word[k][1], IF word[k][2] = "front" THEN 0 ELSE 1>>]>>))
=============================================================================
