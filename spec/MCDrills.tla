------------------------------ MODULE MCDrills ------------------------------
(* Sustained use: behaviours of Forest, hundreds of steps long, in which the *)
(* same few things are done over and over, from wide, deep and mixed trees.  *)
(* A drill says what is done next in the state it is in, or that it is over. *)
EXTENDS Forest, Shapes

CONSTANTS Drills,    \* sequence of <<name, family, size>>
          Look       \* traversals are emitted every so many steps

VARIABLES d,         \* number of the drill
          k          \* steps done
dvars == <<w, last, d, k>>

Labelled(f, i) == [f EXCEPT !.data = [j \in 1..Size(f) |-> 1000 * i + j]]

DInit == /\ d \in 1..Len(Drills)
         /\ k = 0
         /\ w = [i \in Forests |-> Labelled(FromPar(IF i = 1 THEN Family(Drills[d][2], Drills[d][3]) ELSE <<0, 1, 0>>), i)]
         /\ last = [op |-> "init", a |-> <<>>, r |-> {"ok"}, out |-> <<>>]

---------------------------------------------------------------------------
N == Drills[d][3]
F == w[1]
Ks(x) == F.kids[x]
First1(x) == Ks(x)[1]
Last1(x) == Ks(x)[Len(Ks(x))]
Mid1(x) == Ks(x)[(Len(Ks(x)) + 1) \div 2]
Some1(x) == Ks(x)[((k * 37) % Len(Ks(x))) + 1]
RECURSIVE Down(_, _)   \* the last node on the way down along first children
Down(f, x) == IF f.kids[x] = <<>> THEN x ELSE Down(f, f.kids[x][1])
RECURSIVE DownBy(_, _, _)
DownBy(f, x, m) == IF m = 0 \/ f.kids[x] = <<>> THEN x ELSE DownBy(f, f.kids[x][1], m - 1)
Pick(z) == ((k * k * 31 + k * 17 + z * 101 + (k \div 7) * z) % Size(F)) + 1
Over == <<>>
Oldest(S) == CHOOSE x \in S : \A y \in S : x <= y
Youngest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* The children of x that have children.
Inner(x) == SelectSeq(Ks(x), LAMBDA c : Ks(c) # <<>>)

\* What a drill does next: operation and arguments.
Move(name) ==
    CASE name = "detach first" -> IF Ks(1) = <<>> THEN Over ELSE <<"det", First1(1)>>
      [] name = "detach last"  -> IF Ks(1) = <<>> THEN Over ELSE <<"det", Last1(1)>>
      [] name = "detach mid"   -> IF Ks(1) = <<>> THEN Over ELSE <<"det", Mid1(1)>>
      [] name = "remove first" -> IF Ks(1) = <<>> THEN Over ELSE <<"rem", First1(1)>>
      [] name = "remove last"  -> IF Ks(1) = <<>> THEN Over ELSE <<"rem", Last1(1)>>
      [] name = "remove some"  -> IF Ks(1) = <<>> THEN Over ELSE <<"rem", Some1(1)>>
      [] name = "single first" -> IF Ks(1) = <<>> THEN Over ELSE <<"dets", First1(1)>>
      [] name = "single last"  -> IF Ks(1) = <<>> THEN Over ELSE <<"dets", Last1(1)>>
      [] name = "single some"  -> IF Ks(1) = <<>> THEN Over ELSE <<"dets", Some1(1)>>
      \* around and around
      [] name = "rotate"       -> IF k >= 2 * N THEN Over ELSE <<"ins", First1(1), 2, 1>>
      [] name = "rotate back"  -> IF k >= 2 * N THEN Over ELSE <<"ins", Last1(1), 1, 1>>
      [] name = "rotate beside" -> IF k >= 2 * N THEN Over
                                   ELSE IF (k % 5) < 3 THEN <<"ins", First1(1), 4, Last1(1)>> ELSE <<"ins", Last1(1), 3, First1(1)>>
      [] name = "shuffle"      -> IF k >= 2 * N THEN Over
                                  ELSE <<"ins", Some1(1), 3 + (k % 2), Mid1(1)>>
      [] name = "reverse"      -> IF k >= Len(Ks(1)) - 1 THEN Over ELSE <<"ins", Ks(1)[k + 2], 1, 1>>
      [] name = "off and on"   -> IF k >= 2 * N THEN Over
                                  ELSE IF F.par[2] # 0 THEN <<"det", 2>>
                                  ELSE <<"ins", 2, ((k \div 2) % 4) + 1, IF ((k \div 2) % 4) < 2 THEN 1 ELSE Mid1(1)>>
      \* from one parent to another
      [] name = "to head"      -> IF Len(Ks(1)) = 1 THEN Over ELSE <<"ins", Last1(1), 1, 2>>
      [] name = "to tail"      -> IF Len(Ks(1)) = 1 THEN Over ELSE <<"ins", Ks(1)[2], 2, 2>>
      [] name = "to both"      -> IF Len(Ks(1)) = 2 THEN Over ELSE <<"ins", Mid1(1), 1 + (k % 2), IF (k % 3) = 0 THEN First1(1) ELSE Last1(1)>>
      [] name = "there and back" -> IF k >= 2 * (N - 2) THEN Over
                                    ELSE IF k < N - 2 THEN <<"ins", Last1(1), 1, 2>> ELSE <<"ins", Last1(2), 3, 2>>
      [] name = "splice"       -> IF k >= 2 * (N - 2) + 1 THEN Over
                                  ELSE IF k < N - 2 THEN <<"ins", Last1(1), 1 + (k % 2), 2>>
                                  ELSE IF k = N - 2 THEN <<"dets", 2>> ELSE <<"rem", Some1(1)>>
      \* more and more, then less and less
      [] name = "grow"         -> IF k >= 2 * N THEN Over
                                  ELSE IF k < N THEN <<"cins", (k % 4) + 1, IF (k % 4) < 2 THEN 1 ELSE Mid1(1)>> ELSE <<"det", Some1(1)>>
      [] name = "grow head"    -> IF k >= N THEN Over ELSE <<"cins", 1, 1>>
      [] name = "grow beside"  -> IF k >= N THEN Over ELSE <<"cins", 3 + (k % 2), 2>>
      [] name = "churn"        -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"cins", (k % 8) \div 2 + 1, IF (k % 8) < 4 THEN 1 ELSE 2>> ELSE <<"rem", Size(F)>>
      [] name = "churn detached" -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"cins", (k % 8) \div 2 + 1, IF (k % 8) < 4 THEN 1 ELSE 2>> ELSE <<"det", Size(F)>>
      [] name = "churn only"   -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"cins", 1 + (k % 4) \div 2, 2>> ELSE <<"rem", Size(F)>>
      [] name = "churn single" -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"cins", 1 + (k % 4) \div 2, 2>> ELSE <<"dets", Size(F)>>
      [] name = "churn roots"  -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"root">> ELSE <<"rem", Size(F)>>
      \* deep
      [] name = "peel second"  -> IF Ks(1) = <<>> THEN Over ELSE <<"dets", First1(1)>>
      [] name = "peel top"     -> IF k >= N THEN Over ELSE <<"dets", k + 1>>
      [] name = "peel bottom"  -> IF Ks(1) = <<>> THEN Over ELSE <<"dets", N - k>>
      [] name = "chop"         -> IF Alive(F, 1) THEN <<"rem", N - k>> ELSE Over
      [] name = "cut bottom"   -> IF Ks(1) = <<>> THEN Over ELSE <<"det", N - k>>
      [] name = "cut second"   -> IF k >= N - 1 THEN Over ELSE <<"det", k + 2>>
      [] name = "join"         -> IF k >= 2 * (N - 1) THEN Over
                                  ELSE IF k < N - 1 THEN <<"det", k + 2>> ELSE <<"ins", 2 * N - 1 - k, 1 + (k % 2), 2 * N - 2 - k>>
      [] name = "to the top"   -> IF Len(Ks(1)) = N - 1 THEN Over ELSE <<"ins", N - k, 2, 1>>
      [] name = "to the bottom" -> IF Len(Ks(1)) = 1 THEN Over ELSE <<"ins", Last1(1), 2, Down(F, 1)>>
      [] name = "pile"         -> IF k >= 2 * N THEN Over
                                  ELSE IF (k % 2) = 0 THEN <<"root">>
                                  ELSE <<"ins", IF k = 1 THEN 1 ELSE Size(F) - 1, 1 + ((k \div 2) % 2), Size(F)>>
      [] name = "deepen"       -> IF k >= N THEN Over ELSE <<"cins", 1 + (k % 2), Down(F, 1)>>
      [] name = "climb"        -> IF k >= N THEN Over ELSE <<"ins", DownBy(F, 1, 2 + (k % 3)), 3 + (k % 2), DownBy(F, 1, 1)>>
      [] name = "flatten"      -> IF Inner(1) = <<>> THEN Over ELSE <<"dets", Inner(1)[1]>>
      [] name = "flatten last" -> IF Inner(1) = <<>> THEN Over ELSE <<"dets", Inner(1)[Len(Inner(1))]>>
      \* several trees
      [] name = "fell oldest"  -> IF Roots(F) = {} THEN Over ELSE <<"rem", Oldest(Roots(F))>>
      [] name = "fell youngest" -> IF Roots(F) = {} THEN Over ELSE <<"rem", Youngest(Roots(F))>>
      [] name = "fell both ends" -> IF Roots(F) = {} THEN Over
                                    ELSE IF k % 2 = 0 THEN <<"rem", Youngest(Live(F))>> ELSE <<"rem", Oldest(Roots(F))>>
      [] name = "thin out"     -> IF Roots(F) = {} THEN Over ELSE <<"rem", Youngest(Live(F))>>
      [] name = "thin from front" -> IF Roots(F) = {} THEN Over ELSE <<"rem", Down(F, Oldest(Roots(F)))>>
      [] name = "thin and grow" -> IF k >= N THEN Over
                                   ELSE IF k % 3 = 2 THEN <<"cins", 1 + (k % 2), Oldest(Roots(F))>> ELSE <<"rem", Youngest(Live(F) \ {1})>>
      [] name = "fell and plant" -> IF k >= N THEN Over
                                    ELSE IF k % 2 = 0 THEN <<"rem", IF k % 4 = 0 THEN Oldest(Roots(F)) ELSE Youngest(Roots(F))>> ELSE <<"root">>
      [] name = "fell and clone" -> IF k >= 40 THEN Over
                                    ELSE IF k % 2 = 0 THEN <<"clone", 1, Oldest(Live(F)), 1>> ELSE <<"rem", Oldest(Roots(F))>>
      [] name = "fell and copy" -> IF k >= 16 THEN Over
                                   ELSE IF k % 4 = 1 THEN <<"copy", 1, 2>> ELSE IF k % 4 = 3 THEN <<"copy", 2, 1>>
                                   ELSE <<"rem", IF k % 8 < 4 THEN Oldest(Live(F)) ELSE Youngest(Live(F))>>
      [] name = "break up"     -> IF Roots(F) = Live(F) THEN Over ELSE <<"det", Youngest(Live(F) \ Roots(F))>>
      [] name = "gather"       -> IF Cardinality(Roots(F)) = 1 THEN Over ELSE <<"ins", Youngest(Roots(F)), 1 + (k % 2), Oldest(Roots(F))>>
      [] name = "gather deep"  -> IF Cardinality(Roots(F)) = 1 THEN Over ELSE <<"ins", Youngest(Roots(F)), 1 + (k % 4), Youngest(Live(F) \ (Desc(F, Youngest(Roots(F))) \cup Roots(F)))>>
      [] name = "panic in turn" -> IF k >= N \/ Roots(F) = {} THEN Over
                                   ELSE LET r == IF k % 2 = 0 THEN Oldest(Roots(F)) ELSE Youngest(Roots(F)) IN
                                        <<"remp", r, IF Ks(r) = <<>> \/ k % 3 = 0 THEN 1 ELSE 2>>
      \* panics
      [] name = "panic first"  -> IF k >= N THEN Over ELSE <<"remp", 1, 1>>
      [] name = "panic third"  -> IF Cardinality(Desc(F, 1)) < 3 THEN Over ELSE <<"remp", 1, 3>>
      [] name = "panic below"  -> IF k >= N \/ Ks(1) = <<>> THEN Over
                                  ELSE <<"remp", First1(1), (Cardinality(Desc(F, First1(1))) + 1) \div 2>>
      [] name = "panic and mend" -> IF k >= N \/ Ks(1) = <<>> THEN Over
                                    ELSE IF Roots(F) # {1} THEN <<"ins", CHOOSE x \in Roots(F) : x # 1, 1 + (k % 2), 1>>
                                    ELSE <<"remp", Some1(1), (Cardinality(Desc(F, Some1(1))) + 2) \div 3>>
      \* refused, over and over
      [] name = "refuse loop"  -> IF k >= N THEN Over ELSE <<"ins", 1, 1 + (k % 2), Last1(1)>>
      [] name = "refuse beside" -> IF k >= N THEN Over ELSE <<"ins", Some1(1), 3 + (k % 2), IF (k % 3) = 0 THEN 1 ELSE Some1(1)>>
      [] name = "refuse dead"  -> IF k >= N THEN Over
                                  ELSE IF k = 0 THEN <<"rem", 3>>
                                  ELSE CASE (k % 6) = 1 -> <<"det", 3>> [] (k % 6) = 2 -> <<"dets", 3>> [] (k % 6) = 3 -> <<"rem", 3>>
                                         [] (k % 6) = 4 -> <<"ins", 3, 1 + ((k \div 6) % 4), 2>> [] (k % 6) = 5 -> <<"ins", 2, 1 + ((k \div 6) % 4), 3>>
                                         [] OTHER -> <<"probe", 3>>
      [] name = "refuse create" -> IF k >= N THEN Over ELSE IF (k % 4) = 3 THEN <<"cins", 1, 2>> ELSE <<"cins", 3 + (k % 2), 1>>
      \* copies
      [] name = "clone leaf"   -> IF k >= N THEN Over ELSE <<"clone", 1, 2, 1 + (k % 2)>>
      [] name = "clone tree"   -> IF k >= 20 THEN Over ELSE <<"clone", 1, 1, 1>>
      [] name = "graft"        -> IF k >= N THEN Over
                                  ELSE IF k % 2 = 0 THEN <<"clone", 1, Last1(1), 1>>
                                  ELSE <<"ins", CHOOSE x \in Roots(F) : x # 1, ((k \div 2) % 4) + 1, IF ((k \div 2) % 4) < 2 THEN 1 ELSE Mid1(1)>>
      [] name = "clone across" -> IF k >= 20 THEN Over ELSE <<"clone", 1, 1, 2>>
      [] name = "clone and drop" -> IF k >= 40 THEN Over
                                    ELSE IF (k % 2) = 0 THEN <<"clone", 1, 1, 1>> ELSE <<"rem", Size(F) - N + 1>>
      [] name = "clone of clones" -> IF k >= 30 THEN Over ELSE <<"clone", 1, IF k = 0 THEN 1 ELSE Size(F) - N + 1, 1>>
      [] name = "clone in part" -> IF k >= 30 THEN Over ELSE <<"clonep", 1, 1, 1 + (k % 2), 1 + ((k * 11) % N)>>
      [] name = "copies"       -> IF k >= 40 THEN Over
                                  ELSE CASE (k % 4) = 0 -> <<"copy", 1, 2>> [] (k % 4) = 1 -> <<"rem", Last1(1)>>
                                         [] (k % 4) = 2 -> <<"root">> [] OTHER -> <<"copy", 2, 1>>
      [] name = "set"          -> IF k >= 2 * N THEN Over ELSE <<"set", (k % N) + 1>>
      \* all sorts
      [] name = "chaos"        -> IF k >= 2 * N THEN Over ELSE <<"ins", Pick(1), 1 + (Pick(2) % 4), Pick(3)>>
      [] name = "more chaos"   -> IF k >= 2 * N THEN Over
                                  ELSE CASE (k % 5) < 2 -> <<"ins", Pick(1), 1 + (Pick(2) % 4), Pick(3)>>
                                         [] (k % 5) = 2 -> <<"cins", 1 + (Pick(2) % 4), Pick(3)>>
                                         [] (k % 5) = 3 -> <<"dets", Pick(4)>>
                                         [] OTHER -> IF (k % 3) = 0 THEN <<"det", Pick(5)>>
                                                     ELSE <<"ins", Pick(6), 1 + (k % 2), RootOf(F, IF Alive(F, Pick(7)) THEN Pick(7) ELSE 1)>>

Do(m) ==
    CASE m[1] = "root"   -> CreateRoot(1)
      [] m[1] = "cins"   -> CreateInsert(1, m[2], m[3])
      [] m[1] = "ins"    -> Insert(1, m[2], m[3], m[4])
      [] m[1] = "det"    -> Detach(1, m[2])
      [] m[1] = "dets"   -> DetachSingle(1, m[2])
      [] m[1] = "rem"    -> RemoveTree(1, m[2])
      [] m[1] = "remp"   -> RemovePanic(1, m[2], m[3])
      [] m[1] = "clone"  -> Clone(m[2], m[3], m[4])
      [] m[1] = "clonep" -> ClonePanic(m[2], m[3], m[4], m[5])
      [] m[1] = "copy"   -> CopyForest(m[2], m[3])
      [] m[1] = "set"    -> SetDatum(1, m[2])
      [] m[1] = "probe"  -> Probe(1, m[2])

DNext == LET m == Move(Drills[d][1]) IN
         /\ m # Over
         /\ Do(m)
         /\ k' = k + 1
         /\ d' = d

DSpec == DInit /\ [][DNext]_dvars

---------------------------------------------------------------------------
\* What Forest proves of all its steps, where it is not too expensive to look at.
Small == N <= 20
SmallProps == [][Small => AllActionProps]_dvars
SmallWellFormed == Small => LinksWellFormed
SmallNeighbours == Small => NeighboursAgree
\* A drill is not stuck before it says that it is over.
Goes == LET m == Move(Drills[d][1]) IN m # Over => ENABLED Do(m)

\* The nodes that are different afterwards.
Diff(f, g) == LET D == {y \in Names(g) : y > Size(f) \/ (y <= Size(f) /\
                            (f.par[y] # g.par[y] \/ f.kids[y] # g.kids[y] \/ f.data[y] # g.data[y]))}
                  s == SetToSortSeq(D, LAMBDA a, b : a < b)
              IN  <<Size(g), [i \in 1..Len(s) |-> <<s[i], g.par[s[i]], g.kids[s[i]], g.data[s[i]]>>]>>
EmitT == PrintT(ToString(<<"D", d, k, last'.op, last'.a, last'.r, last'.out, [i \in Forests |-> Diff(w[i], w'[i])]>>))
EmitB == k = 0 => PrintT(ToString(<<"B", d, Drills[d][1], [i \in Forests |-> <<w[i].par, w[i].kids, w[i].data>>]>>))
Starts == {RootOf(F, x) : x \in {1, 2, N, Size(F)} \cap Live(F)} \cup ({2, N \div 2} \cap Live(F))
EmitV == (Look > 0 /\ k % Look = Look - 1) =>
         \A x \in Starts : PrintT(ToString(<<"V", d, k, x, TravOf(F, x)>>))
=============================================================================
