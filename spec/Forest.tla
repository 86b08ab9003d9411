------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* State machine of a program using treena: NF forests, and one named      *)
(* action per public structural operation, on live nodes, removed nodes    *)
(* and ids that were never handed out.                                     *)
(*                                                                         *)
(* `last' is an observation variable: the operation just performed, its    *)
(* arguments, the set of replies allowed for it, and what it hands out. It *)
(* is hidden by the VIEW in the model-checking configurations.             *)
(***************************************************************************)
EXTENDS ForestOps, TLC

CONSTANTS NF,        \* number of forests
          MaxN,      \* ids per forest
          MaxTotal,  \* ids over all forests
          WithData,  \* TRUE: data are modelled; FALSE: all data are the same
          WithSet,   \* TRUE: data can be assigned
          Full       \* TRUE: a forest has no more than MaxN ids, creating more is refused

VARIABLES w, last
vars == <<w, last>>

Forests == 1..NF

RECURSIVE SumSizes(_, _)
SumSizes(v, i) == IF i > NF THEN 0 ELSE Size(v[i]) + SumSizes(v, i + 1)
Total == SumSizes(w, 1)

Room(i, k) == Size(w[i]) + k <= MaxN /\ Total + k <= MaxTotal

\* Any id of forest i that a caller may name: handed out ones, and one that was not.
AnyId(i) == 1..(Size(w[i]) + 1)

NewDatum(i) == IF WithData THEN 10 * i + Size(w[i]) + 1 ELSE 1

Did(op, a, r, out) == last' = [op |-> op, a |-> a, r |-> r, out |-> out]

Becomes(i, f) == w' = [w EXCEPT ![i] = f]

---------------------------------------------------------------------------
Init == /\ w = [i \in Forests |-> EmptyForest]
        /\ last = [op |-> "init", a |-> <<>>, r |-> {"ok"}, out |-> <<>>]

CreateRoot(i) ==
    /\ Room(i, 1)
    /\ Becomes(i, AddRoot(w[i], NewDatum(i)))
    /\ Did("root", <<i>>, {"ok"}, <<Size(w[i]) + 1>>)

\* A refused creation may leave one node behind that nobody has the id of
\* (permitted deviation): the state is unchanged for every id handed out.
CreateInsert(i, pos, y) ==
    /\ Room(i, 1)
    /\ LET r == CreateInsertReplies(w[i], pos, y) IN
       IF r = {"ok"}
       THEN /\ Becomes(i, CreateInsertPost(w[i], NewDatum(i), pos, y))
            /\ Did("cins", <<i, pos, y>>, r, <<Size(w[i]) + 1>>)
       ELSE /\ UNCHANGED w
            /\ Did("cins", <<i, pos, y>>, r, <<>>)

Insert(i, x, pos, y) ==
    LET r == InsertReplies(w[i], x, pos, y) IN
    /\ IF r = {"ok"} THEN Becomes(i, InsertPost(w[i], x, pos, y)) ELSE UNCHANGED w
    /\ Did("ins", <<i, x, pos, y>>, r, <<>>)

Detach(i, x) ==
    LET ok == Alive(w[i], x) IN
    /\ IF ok THEN Becomes(i, Cut(w[i], x)) ELSE UNCHANGED w
    /\ Did("det", <<i, x>>, IF ok THEN {"ok"} ELSE {"panic"}, <<>>)

DetachSingle(i, x) ==
    LET r == DetachSingleReplies(w[i], x) IN
    /\ IF r = {"ok"} THEN Becomes(i, DetachSinglePost(w[i], x)) ELSE UNCHANGED w
    /\ Did("dets", <<i, x>>, r, <<>>)

RemoveTree(i, x) ==
    IF Alive(w[i], x)
    THEN /\ Becomes(i, RemovePost(w[i], x))
         /\ Did("rem", <<i, x>>, {"ok"}, PostOrder(w[i], x))
    ELSE /\ UNCHANGED w
         /\ Did("rem", <<i, x>>, {"panic"}, <<>>)

\* Panic-safe removal whose hook panics at its k-th call.
RemovePanic(i, x, k) ==
    /\ Alive(w[i], x)
    /\ k <= Cardinality(Desc(w[i], x))
    /\ Becomes(i, RemovePanicPost(w[i], x, k))
    /\ Did("remp", <<i, x, k>>, {"panic"}, SubSeq(PostOrder(w[i], x), 1, k))

\* Clone the tree under x of forest j into forest i.
Clone(j, x, i) ==
    IF Alive(w[j], x)
    THEN /\ Room(i, Cardinality(Desc(w[j], x)))
         /\ Becomes(i, ClonePost(w[i], w[j], x))
         /\ Did("clone", <<j, x, i>>, {"ok"}, PreOrder(w[j], x))
    ELSE /\ i = j                   \* a node proxy cannot name a dead node
         /\ UNCHANGED w
         /\ Did("clone", <<j, x, i>>, {"panic"}, <<>>)

\* The clone of the k-th datum panics, or the k-th call of the mapping callback
\* does.  What is left of the partial copy is not specified.
ClonePanic(j, x, i, k) ==
    /\ Alive(w[j], x)
    /\ k <= Cardinality(Desc(w[j], x))
    /\ UNCHANGED w
    /\ Did("clonep", <<j, x, i, k>>, {"panic"}, <<>>)

\* Forest::clone and Clone::clone_from.
CopyForest(j, i) ==
    /\ i # j
    /\ Total - Size(w[i]) + Size(w[j]) <= MaxTotal
    /\ Becomes(i, w[j])
    /\ Did("copy", <<j, i>>, {"ok"}, <<>>)

SetDatum(i, x) ==
    /\ WithSet
    /\ Alive(w[i], x)
    /\ Becomes(i, SetData(w[i], x, IF w[i].data[x] < 100 THEN w[i].data[x] + 100
                                                         ELSE w[i].data[x] - 100))
    /\ Did("set", <<i, x>>, {"ok"}, <<>>)

\* Starting a traversal, a debug print or a lookup at a dead or unknown node.
Probe(i, x) ==
    /\ ~Alive(w[i], x)
    /\ UNCHANGED w
    /\ Did("probe", <<i, x>>, {"panic"}, <<>>)

\* No id is left: every form of creation is refused, again and again, and
\* changes nothing.  (A copy that fits in part only may use up the rest.)
NoIdLeft(i) ==
    /\ Full
    /\ UNCHANGED w
    /\ \/ Size(w[i]) = MaxN /\ Did("root", <<i>>, {"panic"}, <<>>)
       \/ \E y \in AnyId(i), pos \in Positions :
             Size(w[i]) = MaxN /\ Did("cins", <<i, pos, y>>, {"panic"}, <<>>)
       \/ \E j \in Forests : \E x \in Live(w[j]) :
             /\ Size(w[i]) + Cardinality(Desc(w[j], x)) > MaxN
             /\ Did("clone", <<j, x, i>>, {"panic"}, <<>>)

Next ==
    \E i \in Forests :
        \/ NoIdLeft(i)
        \/ CreateRoot(i)
        \/ \E y \in AnyId(i), pos \in Positions : CreateInsert(i, pos, y)
        \/ \E x, y \in AnyId(i), pos \in Positions : Insert(i, x, pos, y)
        \/ \E x \in AnyId(i) : Detach(i, x) \/ DetachSingle(i, x) \/ RemoveTree(i, x)
        \/ \E x \in AnyId(i), k \in 1..MaxN : RemovePanic(i, x, k)
        \/ \E j \in Forests : \E x \in AnyId(j) :
              Clone(j, x, i) \/ \E k \in 1..MaxN : ClonePanic(j, x, i, k)
        \/ \E j \in Forests : CopyForest(j, i)
        \/ \E x \in AnyId(i) : SetDatum(i, x) \/ Probe(i, x)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* State invariants.                                                       *)

Injective(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
ToSetOf(s)   == {s[i] : i \in 1..Len(s)}

\* C01: parent and child links describe the same ordered forest.
WellFormed(f) ==
    /\ \A x \in Names(f) : f.par[x] \in {Dead, 0} \cup Names(f)
    /\ \A x \in Names(f) : Injective(f.kids[x])
    /\ \A x \in Names(f) : ToSetOf(f.kids[x]) = {y \in Live(f) : f.par[y] = x}
    /\ \A x \in Live(f) : f.par[x] # 0 => Alive(f, f.par[x])
    /\ \A x \in Names(f) \ Live(f) : f.kids[x] = <<>> /\ f.data[x] = 0
Acyclic(f) == \A x \in Live(f) : f.par[x] # 0 => ~IsAncOrSelf(f, x, f.par[x])

LinksWellFormed == \A i \in Forests : WellFormed(w[i]) /\ Acyclic(w[i])

\* C01: neighbours seen from both sides.
NeighboursAgree == \A i \in Forests : LET f == w[i] IN \A x \in Live(f) :
    /\ NextSib(f, x) # 0 => PrevSib(f, NextSib(f, x)) = x /\ f.par[NextSib(f, x)] = f.par[x]
    /\ PrevSib(f, x) # 0 => NextSib(f, PrevSib(f, x)) = x
    /\ IsRoot(f, x) => NextSib(f, x) = 0 /\ PrevSib(f, x) = 0
    /\ FirstKid(f, x) # 0 => PrevSib(f, FirstKid(f, x)) = 0 /\ f.par[FirstKid(f, x)] = x
    /\ LastKid(f, x) # 0 => NextSib(f, LastKid(f, x)) = 0 /\ f.par[LastKid(f, x)] = x
    /\ (FirstKid(f, x) = 0) <=> (LastKid(f, x) = 0)

\* C12: the depth-first walk is an open/close walk of exactly the subtree.
DftIsWalk == \A i \in Forests : LET f == w[i] IN \A x \in Live(f) :
    LET s == Dft(f, x)
        sub == {y \in Live(f) : IsAncOrSelf(f, x, y)}
        at(e) == PosIn(s, e)
    IN  /\ Len(s) = 2 * Cardinality(sub)
        /\ ToSetOf(s) = sub \cup {-y : y \in sub}
        /\ \A y \in sub : at(y) < at(-y)
        /\ \A y \in sub \ {x} : at(f.par[y]) < at(y) /\ at(-y) < at(-f.par[y])
        /\ \A y \in sub \ {x} : NextSib(f, y) # 0 => at(NextSib(f, y)) = at(-y) + 1
        /\ SelectSeq(s, LAMBDA e : e > 0) = PreOrder(f, x)
        /\ [k \in 1..Cardinality(sub) |-> -SelectSeq(s, LAMBDA e : e < 0)[k]] = PostOrder(f, x)

\* C13: dropping what is deeper keeps a walk; the deepest limits coincide.
ShallowIsFilter == \A i \in Forests : LET f == w[i] IN \A x \in Live(f) :
    LET full == DftD(f, x, 0) IN
    /\ [k \in 1..Len(full) |-> full[k][1]] = Dft(f, x)
    /\ Shallow(f, x, 0) = <<<<x, 0>>, <<-x, 0>>>>
    /\ Shallow(f, x, MaxN) = full
    /\ \A k \in 1..Len(full) : LET y == IF full[k][1] > 0 THEN full[k][1] ELSE -full[k][1] IN
           full[k][2] = Len(Anc(f, y)) - Len(Anc(f, x))

\* C14: level order.
BftIsLevelOrder == \A i \in Forests : LET f == w[i] IN \A x \in Live(f) :
    LET s == Bft(f, x)
        dep(y) == Len(Anc(f, y)) - Len(Anc(f, x))
        pre == PreOrder(f, x)
    IN  /\ Len(s) = Len(pre)
        /\ \A k \in 1..Len(s) : s[k][2] = dep(s[k][1])
        /\ {s[k][1] : k \in 1..Len(s)} = Desc(f, x)
        /\ \A k \in 1..(Len(s) - 1) :
              \/ s[k][2] < s[k + 1][2]
              \/ s[k][2] = s[k + 1][2] /\ PosIn(pre, s[k][1]) < PosIn(pre, s[k + 1][1])

\* C15
AncestorsAndSiblings == \A i \in Forests : LET f == w[i] IN \A x \in Live(f) :
    LET a == Anc(f, x) IN
    /\ a[1] = x /\ f.par[a[Len(a)]] = 0
    /\ \A k \in 1..(Len(a) - 1) : f.par[a[k]] = a[k + 1]
    /\ Preceding(f, x) \o <<x>> \o Following(f, x) = SibSeq(f, x)

---------------------------------------------------------------------------
(* Action properties, stated without the operators that define the actions *)

DescOf(f, x) == {y \in Live(f) : IsAncOrSelf(f, x, y)}

SameShape(f, g, D) == \A d \in D : g.kids[d] = f.kids[d] /\ g.data[d] = f.data[d]

\* A node and everything about it, seen from outside the moved subtree.
Others(f, g, x) ==
    /\ Size(g) = Size(f) /\ g.data = f.data
    /\ \A y \in Names(f) \ {x} : g.par[y] = f.par[y]
    /\ \A y \in Names(f) : Without(g.kids[y], x) = Without(f.kids[y], x)

InsertPlaces ==   \* C02
    (last'.op = "ins" /\ last'.r = {"ok"}) =>
    LET i == last'.a[1] x == last'.a[2] pos == last'.a[3] y == last'.a[4]
        f == w[i] g == w'[i]
    IN  /\ CASE pos = 1 -> FirstKid(g, y) = x /\ g.par[x] = y
             [] pos = 2 -> LastKid(g, y) = x /\ g.par[x] = y
             [] pos = 3 -> NextSib(g, x) = y /\ g.par[x] = f.par[y]
             [] pos = 4 -> PrevSib(g, x) = y /\ g.par[x] = f.par[y]
        /\ Others(f, g, x)
        /\ SameShape(f, g, DescOf(f, x))

InsertRefuses ==  \* C03
    (last'.op = "ins" /\ last'.r # {"ok"}) => w' = w
InsertRefusesRightly ==
    last'.op = "ins" =>
    LET i == last'.a[1] x == last'.a[2] pos == last'.a[3] y == last'.a[4] f == w[i]
        dead == {x, y} \cap Live(f) # {x, y}
        newpar == IF pos \in {3, 4} THEN f.par[y] ELSE y
    IN  /\ dead => "panic" \in last'.r /\ "ok" \notin last'.r
        /\ (~dead /\ pos \in {3, 4} /\ x = y) => "unord" \in last'.r
        /\ (~dead /\ pos \in {3, 4} /\ x # y /\ newpar = 0) => last'.r = {"noparent"}
        /\ (~dead /\ newpar # 0 /\ x # y) =>
              (last'.r = {"loop"} <=> newpar \in DescOf(f, x))
        /\ (~dead /\ newpar # 0 /\ x # y /\ newpar \notin DescOf(f, x)) => last'.r = {"ok"}

DetachCuts ==     \* C04
    last'.op = "det" =>
    LET i == last'.a[1] x == last'.a[2] f == w[i] g == w'[i] IN
    IF x \in Live(f)
    THEN /\ last'.r = {"ok"} /\ g.par[x] = 0
         /\ Others(f, g, x) /\ SameShape(f, g, DescOf(f, x))
         /\ f.par[x] = 0 => g = f
    ELSE last'.r = {"panic"} /\ w' = w

DetachSingleSplices ==  \* C05
    last'.op = "dets" =>
    LET i == last'.a[1] x == last'.a[2] f == w[i] g == w'[i] IN
    IF x \notin Live(f) THEN last'.r = {"panic"} /\ w' = w
    ELSE IF f.par[x] = 0 /\ Len(f.kids[x]) > 1 THEN last'.r = {"noparent"} /\ w' = w
    ELSE /\ last'.r = {"ok"}
         /\ g.par[x] = 0 /\ g.kids[x] = <<>>
         /\ g.data = f.data
         /\ \A y \in Live(f) \ {x} : /\ g.kids[y] = IF y = f.par[x]
                                        THEN FoldLeft(LAMBDA acc, c : acc \o (IF c = x THEN f.kids[x] ELSE <<c>>),
                                                      <<>>, f.kids[y])
                                        ELSE f.kids[y]
                                     /\ g.par[y] = IF f.par[y] = x THEN f.par[x] ELSE f.par[y]

RemovesSubtree == \* C06
    last'.op = "rem" =>
    LET i == last'.a[1] x == last'.a[2] f == w[i] g == w'[i] IN
    IF x \notin Live(f) THEN last'.r = {"panic"} /\ w' = w
    ELSE LET D == DescOf(f, x) o == last'.out IN
         /\ Live(g) = Live(f) \ D
         /\ \A y \in Live(g) : /\ g.data[y] = f.data[y] /\ g.par[y] = f.par[y]
                               /\ g.kids[y] = Without(f.kids[y], x)
         \* handed out exactly once each, children in order before their parent
         /\ Injective(o) /\ ToSetOf(o) = D
         /\ \A y \in D : \A k \in 1..Len(f.kids[y]) :
               /\ PosIn(o, f.kids[y][k]) < PosIn(o, y)
               /\ k > 1 => PosIn(o, f.kids[y][k - 1]) < PosIn(o, f.kids[y][k])
         /\ o[Len(o)] = x

PanicLeavesConsistent == \* C07
    last'.op = "remp" =>
    LET i == last'.a[1] x == last'.a[2] k == last'.a[3] f == w[i] g == w'[i]
        D == DescOf(f, x) gone == ToSetOf(last'.out) IN
    /\ Cardinality(gone) = k /\ gone \subseteq D
    /\ Live(g) = Live(f) \ gone
    /\ \A y \in gone : DescOf(f, y) \subseteq gone
    /\ x \in Live(g) => g.par[x] = 0
    /\ \A y \in D \ (gone \cup {x}) : g.par[y] = f.par[y]
    /\ \A y \in D \ gone : /\ g.kids[y] = SelectSeq(f.kids[y], LAMBDA c : c \notin gone)
                           /\ g.data[y] = f.data[y]
    /\ \A y \in Live(f) \ D : /\ g.par[y] = f.par[y] /\ g.data[y] = f.data[y]
                              /\ g.kids[y] = Without(f.kids[y], x)

NamesFresh ==     \* C08: names are never reused, and the dead stay dead
    \A i \in Forests : (last'.op # "copy" \/ last'.a[2] # i) =>
        /\ Size(w'[i]) >= Size(w[i])
        /\ \A x \in Names(w[i]) : x \notin Live(w[i]) => x \notin Live(w'[i])
DeadRefused ==    \* C08
    (last'.op \in {"det", "dets", "rem", "clone", "probe"} /\ last'.a[2] \notin Live(w[last'.a[1]]))
        => last'.r = {"panic"} /\ w' = w

CreatesLeaf ==    \* C09
    (last'.op \in {"root", "cins"}) =>
    LET i == last'.a[1] f == w[i] g == w'[i] n == Size(f) + 1 IN
    IF last'.r # {"ok"} THEN w' = w
    ELSE /\ Size(g) = n /\ g.kids[n] = <<>> /\ last'.out = <<n>>
         /\ \A y \in Names(f) : /\ g.par[y] = f.par[y] /\ g.data[y] = f.data[y]
                                /\ Without(g.kids[y], n) = f.kids[y]
         /\ last'.op = "root" => g.par[n] = 0
         /\ last'.op = "cins" =>   \* the same as creating a root and inserting it
               g = InsertPost(AddRoot(f, g.data[n]), n, last'.a[2], last'.a[3])

DataKept ==       \* C10
    \A i \in Forests : \A x \in Names(w[i]) :
        (~(last'.op = "copy" /\ last'.a[2] = i) /\ x \in Live(w'[i])
            /\ ~(last'.op = "set" /\ last'.a[1] = i /\ last'.a[2] = x)) => w'[i].data[x] = w[i].data[x]

CloneIsomorphic == \* C11
    (last'.op = "clone" /\ last'.r = {"ok"}) =>
    LET j == last'.a[1] x == last'.a[2] i == last'.a[3]
        f == w[i] g == w'[i] s == w[j] o == last'.out
        m == [y \in DescOf(s, x) |-> Size(f) + PosIn(o, y)]
    IN  /\ Injective(o) /\ ToSetOf(o) = DescOf(s, x)
        /\ Size(g) = Size(f) + Len(o)
        /\ \A y \in Names(f) : g.par[y] = f.par[y] /\ g.kids[y] = f.kids[y] /\ g.data[y] = f.data[y]
        /\ g.par[m[x]] = 0
        /\ \A y \in DescOf(s, x) : /\ g.data[m[y]] = s.data[y]
                                   /\ g.kids[m[y]] = [k \in 1..Len(s.kids[y]) |-> m[s.kids[y][k]]]
                                   /\ y # x => g.par[m[y]] = m[s.par[y]]

OthersUntouched == \* C20
    /\ \A i \in Forests :     \* other forests
         (CASE last'.op \in {"clone", "clonep"} -> last'.a[3] # i
            [] last'.op = "copy" -> last'.a[2] # i
            [] OTHER -> last'.a[1] # i) => w'[i] = w[i]
    /\ \A i \in Forests :     \* other trees of the forest
         ~(last'.op = "copy" /\ last'.a[2] = i) =>
         LET f == w[i] g == w'[i]
             named == CASE last'.op = "ins" -> {last'.a[2], last'.a[4]}
                        [] last'.op = "cins" -> {last'.a[3]}
                        [] last'.op \in {"det", "dets", "rem", "remp", "set"} -> {last'.a[2]}
                        [] OTHER -> {}
             touched == {RootOf(f, x) : x \in named \cap Live(f)}
         IN \A r \in Roots(f) \ touched : \A y \in DescOf(f, r) :
               g.par[y] = f.par[y] /\ g.kids[y] = f.kids[y] /\ g.data[y] = f.data[y]

RefusedWhenFull == \* C19
    Full => /\ \A i \in Forests : Size(w'[i]) <= MaxN
            /\ (last'.op \in {"root", "cins"} /\ Size(w[last'.a[1]]) = MaxN)
                 => last'.r = {"panic"} /\ w' = w

AllActionProps ==
    /\ RefusedWhenFull
    /\ InsertPlaces /\ InsertRefuses /\ InsertRefusesRightly /\ DetachCuts
    /\ DetachSingleSplices /\ RemovesSubtree /\ PanicLeavesConsistent
    /\ NamesFresh /\ DeadRefused /\ CreatesLeaf /\ DataKept /\ CloneIsomorphic
    /\ OthersUntouched
ActionProps == [][AllActionProps]_vars

=============================================================================
