-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Trees of any depth and width: families whose members, named in document *)
(* order, have closed forms for everything that ForestOps defines by        *)
(* recursion, so that they can be had for tens of thousands of nodes.       *)
(* MCHuge checks each closed form against ForestOps for small members.      *)
(*   path   every node has one child                                        *)
(*   star   all nodes are children of the first                             *)
(*   comb   (odd n) odd nodes are a spine, each but the last with a leaf     *)
(*          (its first child) and the next one of the spine                 *)
(*   broom  a path of n/2 nodes, the last of which has all others as children*)
(*   fan    (from 5 nodes) all but three are children of the third, which is *)
(*          the middle one of three children of the first                    *)
(***************************************************************************)
EXTENDS Shapes, Builders, Printing, TLC

\* The same sequence, but TLC works out all its elements here and now.
Eager(s) == s \o <<>>

Mid(n) == n \div 2

End(fam, n, x) == \* the last node below x, in document order
    CASE fam = "path" -> n
      [] fam = "star" -> IF x = 1 THEN n ELSE x
      [] fam = "comb" -> IF x % 2 = 1 THEN n ELSE x
      [] fam = "broom" -> IF x <= Mid(n) THEN n ELSE x
      [] fam = "fan" -> IF x = 1 THEN n ELSE IF x = 3 THEN n - 1 ELSE x

Depth(fam, n, x) ==
    CASE fam = "path" -> x - 1
      [] fam = "star" -> IF x = 1 THEN 0 ELSE 1
      [] fam = "comb" -> x \div 2
      [] fam = "broom" -> IF x <= Mid(n) THEN x - 1 ELSE Mid(n)
      [] fam = "fan" -> IF x = 1 THEN 0 ELSE IF x \in {2, 3, n} THEN 1 ELSE 2

Kids(fam, n, x) ==
    CASE fam = "path" -> IF x = n THEN <<>> ELSE <<x + 1>>
      [] fam = "star" -> IF x = 1 THEN [k \in 1..(n - 1) |-> k + 1] ELSE <<>>
      [] fam = "comb" -> IF x % 2 = 0 \/ x = n THEN <<>> ELSE <<x + 1, x + 2>>
      [] fam = "broom" -> IF x < Mid(n) THEN <<x + 1>>
                          ELSE IF x = Mid(n) THEN [k \in 1..(n - Mid(n)) |-> Mid(n) + k] ELSE <<>>
      [] fam = "fan" -> IF x = 1 THEN <<2, 3, n>> ELSE IF x = 3 THEN [k \in 1..(n - 4) |-> k + 3] ELSE <<>>

Tree(fam, n) == [par  |-> Eager(Family(fam, n)),
                 kids |-> Eager([x \in 1..n |-> Eager(Kids(fam, n, x))]),
                 data |-> Eager([x \in 1..n |-> 0])]

Leaf(x) == <<x, -x>>
Down(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]          \* a, a+1, .., b
Closes(b, a) == [k \in 1..(b - a + 1) |-> -(b - k + 1)]     \* -b, -(b-1), .., -a
Leaves(a, b) == [k \in 1..(2 * (b - a + 1)) |-> IF k % 2 = 1 THEN a + (k \div 2) ELSE -(a + (k \div 2) - 1)]

HDft(fam, n, x) ==
    CASE End(fam, n, x) = x -> Leaf(x)
      [] fam = "path" -> Down(x, n) \o Closes(n, x)
      [] fam = "star" -> <<1>> \o Leaves(2, n) \o <<-1>>
      [] fam = "comb" -> \* per spine node its open and its leaf, 3 events each
            LET m == (n - x) \div 2 IN
            [k \in 1..(3 * m) |-> LET s == x + 2 * ((k - 1) \div 3) IN
                                  CASE k % 3 = 1 -> s [] k % 3 = 2 -> s + 1 [] k % 3 = 0 -> -(s + 1)]
            \o <<n>> \o [k \in 1..(m + 1) |-> -(n - 2 * (k - 1))]
      [] fam = "broom" -> Down(x, Mid(n)) \o Leaves(Mid(n) + 1, n) \o Closes(Mid(n), x)
      [] fam = "fan" -> LET hub == <<3>> \o Leaves(4, n - 1) \o <<-3>> IN
                        IF x = 3 THEN hub ELSE <<1, 2, -2>> \o hub \o <<n, -n, -1>>

Node(e) == IF e < 0 THEN -e ELSE e
HDftD(fam, n, x) ==
    LET s == Eager(HDft(fam, n, x)) d == Depth(fam, n, x) IN
    [k \in 1..Len(s) |-> <<s[k], Depth(fam, n, Node(s[k])) - d>>]
\* In these families the levels come in the order of the names, but for the end of a fan.
HBft(fam, n, x) == LET d == Depth(fam, n, x) IN
    IF fam = "fan" /\ x = 1
    THEN <<<<1, 0>>, <<2, 1>>, <<3, 1>>, <<n, 1>>>> \o [k \in 1..(n - 4) |-> <<k + 3, 2>>]
    ELSE
    [k \in 1..(End(fam, n, x) - x + 1) |-> <<x + k - 1, Depth(fam, n, x + k - 1) - d>>]

Spine(x) == [k \in 1..((x + 1) \div 2) |-> x - 2 * (k - 1)]
Upwards(x) == [k \in 1..x |-> x - k + 1]
HAnc(fam, n, x) ==
    CASE fam = "path" -> Upwards(x)
      [] fam = "star" -> IF x = 1 THEN <<1>> ELSE <<x, 1>>
      [] fam = "comb" -> IF x % 2 = 1 THEN Spine(x) ELSE <<x>> \o Spine(x - 1)
      [] fam = "broom" -> IF x <= Mid(n) THEN Upwards(x) ELSE <<x>> \o Upwards(Mid(n))
      [] fam = "fan" -> IF x = 1 THEN <<1>> ELSE IF x \in {2, 3, n} THEN <<x, 1>> ELSE <<x, 3, 1>>

HPost(fam, n, x) ==
    LET s == SelectSeq(HDft(fam, n, x), LAMBDA e : e < 0) IN Eager([k \in 1..Len(s) |-> -s[k]])

Below(fam, n, a, x) == a <= x /\ x <= End(fam, n, a)      \* a is x or an ancestor of it

HTravOf(fam, n, x) ==
    LET f == Tree(fam, n) IN
    <<HDftD(fam, n, x), HBft(fam, n, x), HAnc(fam, n, x), f.kids[x], Following(f, x), Preceding(f, x),
      Parent(f, x), FirstKid(f, x), LastKid(f, x), PrevSib(f, x), NextSib(f, x)>>

---------------------------------------------------------------------------
(* Operations: ForestOps with the closed forms in place of the recursive    *)
(* definitions.                                                             *)

HInsertReply(fam, n, x, pos, y) ==
    IF BesidePos(pos)
    THEN IF x = y THEN "unord" ELSE IF y = 1 THEN "noparent"
         ELSE IF Below(fam, n, x, Family(fam, n)[y]) THEN "loop" ELSE "ok"
    ELSE IF Below(fam, n, x, y) THEN "loop" ELSE "ok"

HRemovePost(f, fam, n, x) == Kill(f, x..End(fam, n, x))
\* Before y closes, all up to the end of y have, but for y's ancestors.
HPostPos(fam, n, x, y) == (End(fam, n, y) - x + 1) - (Depth(fam, n, y) - Depth(fam, n, x))
HRemovePanicPost(f, fam, n, x, k) ==
    Kill(Cut(f, x), {y \in x..End(fam, n, x) : HPostPos(fam, n, x, y) <= k})
HClonePost(g, f, fam, n, x) == \* x is a node of f, the copy goes to g
    LET m == Size(g) c == End(fam, n, x) - x + 1 to == m + 1 - x IN
    [par  |-> g.par  \o [i \in 1..c |-> IF i = 1 THEN 0 ELSE f.par[x + i - 1] + to],
     kids |-> g.kids \o [i \in 1..c |-> [j \in 1..Len(f.kids[x + i - 1]) |-> f.kids[x + i - 1][j] + to]],
     data |-> g.data \o [i \in 1..c |-> f.data[x + i - 1]]]
HDetachSinglePost(f, fam, n, x) ==
    LET cs == f.kids[x] p == f.par[x] IN
    [par  |-> [y \in 1..n |-> IF y = x THEN 0 ELSE IF f.par[y] = x THEN p ELSE f.par[y]],
     kids |-> [y \in 1..n |-> IF y = x THEN <<>>
                              ELSE IF y = p THEN Splice(f.kids[p], PosIn(f.kids[p], x), PosIn(f.kids[p], x), cs)
                              ELSE f.kids[y]],
     data |-> f.data]

---------------------------------------------------------------------------
(* The lines printed for the subtree of x, if every content is one line: a  *)
(* sequence of <<node, pieces>>, the pieces as <<how often, piece>>.        *)
(* Also for rcomb (odd n; even nodes a spine, each but the last with the     *)
(* next one of the spine and then a leaf), printed from its root.            *)

Spaced == "    "
Barred == "|   "
Branch == "|-- "
End4 == "`-- "
HPrint(fam, n, x) ==
    LET top == <<<<x, <<>>>>>>
        m   == End(fam, n, x) - x      \* nodes below x, but for rcomb
        line(y, d, up, own) == <<y, <<<<d - 1, up>>, <<1, own>>>>>>
    IN
    CASE fam = "rcomb" ->
            top \o [k \in 1..((n - 1) \div 2) |-> line(2 * k, k, Barred, Branch)]
                \o [k \in 1..((n - 1) \div 2) |-> LET y == n - 2 * (k - 1) IN line(y, (y - 1) \div 2, Barred, End4)]
      [] m = 0 -> top
      [] fam = "path" -> top \o [k \in 1..m |-> line(x + k, k, Spaced, End4)]
      [] fam = "star" -> top \o [k \in 1..m |-> line(x + k, 1, Spaced, IF k = m THEN End4 ELSE Branch)]
      [] fam = "comb" -> top \o [k \in 1..m |-> line(x + k, (k + 1) \div 2, Spaced, IF k % 2 = 1 THEN Branch ELSE End4)]
      [] fam = "broom" -> LET s == Mid(n) - x IN  \* levels of the path below x
            top \o [k \in 1..m |-> IF k <= s THEN line(x + k, k, Spaced, End4)
                                    ELSE line(x + k, s + 1, Spaced, IF k = m THEN End4 ELSE Branch)]
      [] fam = "fan" -> IF x = 3 THEN top \o [k \in 1..m |-> line(x + k, 1, Spaced, IF k = m THEN End4 ELSE Branch)]
                        ELSE top \o <<line(2, 1, Spaced, Branch), line(3, 1, Spaced, Branch)>>
                                 \o [k \in 1..(n - 4) |-> line(k + 3, 2, Barred, IF k = n - 4 THEN End4 ELSE Branch)]
                                 \o <<line(n, 1, Spaced, End4)>>

RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k = 0 THEN "" ELSE s \o Repeat(s, k - 1)
Spelled(l) == FoldLeft(LAMBDA acc, r : acc \o Repeat(r[2], r[1]), "", l[2]) \o ToString(l[1])
HPrintLines(fam, n, x) == LET ls == HPrint(fam, n, x) IN [k \in 1..Len(ls) |-> Spelled(ls[k])]

---------------------------------------------------------------------------
(* The calls of a chain builder that build the tree, and of a nest builder  *)
(* for the flat one; the current node, or innermost root, after each.       *)

Times(c, k) == [j \in 1..k |-> c]
HChainCalls(fam, n) ==
    CASE fam = "path" -> Times("child", n - 1) \o Times("parent", n - 1)
      [] fam = "star" -> <<"child">> \o Times("sibling", n - 2) \o <<"tryparent">>
      [] fam = "comb" -> [k \in 1..(n - 1) |-> IF k % 2 = 1 THEN "child" ELSE "sibling"]
                         \o Times("tryparent", n \div 2)
      [] fam = "broom" -> Times("child", Mid(n)) \o Times("sibling", n - Mid(n) - 1) \o Times("parent", Mid(n))
      [] fam = "fan" -> <<"child", "sibling", "child">> \o Times("sibling", n - 5) \o <<"parent", "sibling", "tryparent">>
HChainCurs(fam, n) == IF fam = "fan" THEN Down(2, n - 1) \o <<3, n, 1>> ELSE Down(2, n) \o
    CASE fam = "path" -> [k \in 1..(n - 1) |-> n - k]
      [] fam = "star" -> <<1>>
      [] fam = "comb" -> [k \in 1..(n \div 2) |-> n - 2 * k]
      [] fam = "broom" -> [k \in 1..Mid(n) |-> Mid(n) + 1 - k]
HNestCalls(n) == [k \in 1..(n - 1) |-> "add"]

ChainCall(b, c) == (CASE c = "child" -> ChainChild(b, 0) [] c = "sibling" -> ChainSibling(b, 0)
                      [] c = "parent" -> ChainParent(b) [] c = "tryparent" -> ChainTryParent(b)).b
RunChain(calls) ==
    FoldLeft(LAMBDA st, c : LET q == ChainCall(st[1], c) IN <<q, Append(st[2], q.cur)>>,
             <<ChainNew(EmptyForest, 0), <<>>>>, calls)
=============================================================================
