------------------------------- MODULE MCHuge -------------------------------
(* The closed forms of Huge against ForestOps for all members up to Small    *)
(* nodes; and for the huge ones, traversals and single operations, emitted   *)
(* for the replay.                                                          *)
EXTENDS Huge, TLC

CONSTANTS Small,     \* closed forms are checked for members up to this size
          Sizes,     \* sequence of <<family, number of nodes>>: the huge ones
          Parts,     \* what is emitted for them (see Emit)
          Printed    \* those of which the lines printed are emitted

Families == {"path", "star", "comb", "broom", "fan"}
VARIABLES c,         \* <<family, nodes, part>>; part 0: check, otherwise emit
          now        \* do it now (a step of its own, for TLC's workers to share them out)
Init == /\ now = FALSE
        /\ \/ \E fam \in Families, n \in 4..Small : (fam = "comb" => n % 2 = 1) /\ (fam = "fan" => n > 4) /\ c = <<fam, n, 0>>
           \/ \E i \in 1..Len(Sizes), part \in Parts \cup {8} : c = <<Sizes[i][1], Sizes[i][2], part>>
           \/ \E i \in 1..Len(Printed) : c = <<Printed[i][1], Printed[i][2], 10>>
           \/ \E k \in 2..(Small \div 2) : c = <<"rcomb", 2 * k + 1, -1>>
Next == ~now /\ now' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, now>>

fam == c[1]
n == c[2]

---------------------------------------------------------------------------
ClosedForms == (c[3] = 0 /\ now) => LET f == Tree(fam, n) IN
    /\ f = FromPar(Family(fam, n))
    /\ \A x \in 1..n :
        /\ PreOrder(f, x) = Down(x, End(fam, n, x))
        /\ HDft(fam, n, x) = Dft(f, x)
        /\ HTravOf(fam, n, x) = TravOf(f, x)
        /\ HPost(fam, n, x) = PostOrder(f, x)
        /\ HRemovePost(f, fam, n, x) = RemovePost(f, x)
        /\ \A k \in 1..Cardinality(Desc(f, x)) : HRemovePanicPost(f, fam, n, x, k) = RemovePanicPost(f, x, k)
        /\ HClonePost(f, f, fam, n, x) = ClonePost(f, f, x)
        /\ HClonePost(EmptyForest, f, fam, n, x) = ClonePost(EmptyForest, f, x)
        /\ HDetachSinglePost(f, fam, n, x) = DetachSinglePost(f, x)
        /\ \A y \in 1..n, pos \in Positions : HInsertReply(fam, n, x, pos, y) \in InsertReplies(f, x, pos, y)
    /\ LET r == RunChain(HChainCalls(fam, n)) IN
       r[1].f = f /\ r[2] = HChainCurs(fam, n)

Lined(f) == [y \in 1..n |-> <<ToString(y)>>]
PrintedForms == now =>
    /\ c[3] = 0 => LET f == Tree(fam, n) IN \A x \in 1..n : HPrintLines(fam, n, x) = PrintLines(f, x, Lined(f))
    /\ c[3] = -1 => LET f == FromPar(Family(fam, n)) IN HPrintLines(fam, n, 1) = PrintLines(f, 1, Lined(f))

---------------------------------------------------------------------------
(* What is emitted                                                         *)

Say(v) == PrintT(ToString(v))

Hub == IF fam = "fan" THEN 3 ELSE 2
Starts == {1, Hub, n \div 2, n \div 2 + 1, n - 1, n}
Traversals(f) == Say(<<"I", n, f.par, f.kids, [y \in 1..n |-> IF y \in Starts THEN HTravOf(fam, n, y) ELSE <<>>]>>)
ChainProgram(f) == Say(<<"C", HChainCalls(fam, n), HChainCurs(fam, n), <<f.par, f.kids, f.data>>>>)
NestProgram(f) == fam = "star" => Say(<<"N", HNestCalls(n), Times(1, n), <<f.par, f.kids, f.data>>>>)

\* A forest as the nodes in which it differs from another one.
Diff(g, h) ==
    LET m == Size(g) par == Eager(h.par) kids == Eager(h.kids) IN
    <<Len(par), SelectSeq([y \in 1..Len(par) |-> <<y, par[y], kids[y]>>],
                          LAMBDA e : e[1] > m \/ g.par[e[1]] # e[2] \/ g.kids[e[1]] # e[3])>>
\* One step from forests 1 (the tree) and 2 (empty).
Step(f, op, a, r, out, g1, g2) ==
    Say(<<"H", fam, n, op, a, {r}, Diff(f, g1), Diff(EmptyForest, g2), out>>)

Some == {1, Hub, n \div 2, n \div 2 + 1, n}
Ends == {1, n \div 2, n}
AnIns(f, x, pos, y) == LET r == HInsertReply(fam, n, x, pos, y) IN
    Step(f, "ins", <<1, x, pos, y>>, r, <<>>, IF r = "ok" THEN InsertPost(f, x, pos, y) ELSE f, EmptyForest)
Insertions(f) == \A x \in {Hub, n \div 2, n} : \A y \in Ends : \A pos \in Positions : AnIns(f, x, pos, y)
Creations(f) == \A y \in {1, n} : \A pos \in IF y = 1 THEN {1, 2} ELSE Positions :
    Step(f, "cins", <<1, pos, y>>, "ok", <<>>, CreateInsertPost(f, 0, pos, y), EmptyForest)
Detaching(f) == \A x \in Some :
    /\ Step(f, "det", <<1, x>>, "ok", <<>>, Cut(f, x), EmptyForest)
    /\ IF x = 1 /\ Len(f.kids[1]) > 1
       THEN Step(f, "dets", <<1, x>>, "noparent", <<>>, f, EmptyForest)
       ELSE Step(f, "dets", <<1, x>>, "ok", <<>>, HDetachSinglePost(f, fam, n, x), EmptyForest)
Removals(f) == \A x \in {1, Hub, n \div 2} :
    /\ Step(f, "rem", <<1, x>>, "ok", HPost(fam, n, x), HRemovePost(f, fam, n, x), EmptyForest)
    /\ LET m == End(fam, n, x) - x + 1 IN
       \A k \in {1, m \div 3 + 1, m} :
          Step(f, "remp", <<1, x, k>>, "panic", SubSeq(HPost(fam, n, x), 1, k), HRemovePanicPost(f, fam, n, x, k), EmptyForest)
Clones(f) == \A x \in {1, n \div 2} \cup (IF fam = "fan" THEN {Hub} ELSE {}) :
    /\ Step(f, "clone", <<1, x, 1>>, "ok", Down(x, End(fam, n, x)), HClonePost(f, f, fam, n, x), EmptyForest)
    /\ Step(f, "clone", <<1, x, 2>>, "ok", Down(x, End(fam, n, x)), f, HClonePost(EmptyForest, f, fam, n, x))
Copies(f) == Step(f, "copy", <<1, 2>>, "ok", <<>>, f, f)

Prints == LET par == Eager(Family(fam, n)) IN
    \A x \in IF fam = "rcomb" THEN {1} ELSE {1, Hub, n \div 2, n} : Say(<<"P", fam, par, x, Eager(HPrint(fam, n, x))>>)

Emit == now => LET f == Tree(fam, n) IN   \* f is not worked out where it is not used
    CASE c[3] <= 0 -> TRUE
      [] c[3] = 1 -> Traversals(f)
      [] c[3] = 2 -> Creations(f)
      [] c[3] = 3 -> Insertions(f)
      [] c[3] = 4 -> Removals(f)
      [] c[3] = 5 -> Clones(f)
      [] c[3] = 6 -> Detaching(f)
      [] c[3] = 7 -> ChainProgram(f) /\ NestProgram(f)
      [] c[3] = 8 -> Say(<<"B", fam, n, f.par, f.kids>>)
      [] c[3] = 9 -> Copies(f)
      [] c[3] = 10 -> Prints
=============================================================================
