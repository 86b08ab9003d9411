----------------------------- MODULE ForestOps -----------------------------
(***************************************************************************)
(* Abstract forest values and the meaning of treena's public operations.   *)
(*                                                                         *)
(* A forest value is a record                                              *)
(*    f.par[x]  = parent of node x, 0 for a root, -1 (Dead) once removed    *)
(*    f.kids[x] = the children of x, first to last                         *)
(*    f.data[x] = the datum held by x (0 once removed)                     *)
(* Nodes are named 1, 2, 3, ... in the order of their creation.  The names *)
(* are the specification's; the harness binds each one to the opaque id    *)
(* the implementation returned for it.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Dead == -1

EmptyForest == [par |-> <<>>, kids |-> <<>>, data |-> <<>>]

Size(f)     == Len(f.par)
Names(f)    == 1..Len(f.par)
Alive(f, x) == x \in 1..Len(f.par) /\ f.par[x] # Dead
Live(f)     == {x \in Names(f) : f.par[x] # Dead}
IsRoot(f, x) == f.par[x] = 0
Roots(f)    == {x \in Live(f) : IsRoot(f, x)}

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
PosIn(s, x)   == CHOOSE i \in 1..Len(s) : s[i] = x
Splice(s, i, j, t) == \* s with the elements i..j (j = i-1: none) replaced by t
    SubSeq(s, 1, i - 1) \o t \o SubSeq(s, j + 1, Len(s))

---------------------------------------------------------------------------
(* Ranges of nodes                                                         *)

RECURSIVE Anc(_, _)               \* x, its parent, ..., its root
Anc(f, x) == IF f.par[x] = 0 THEN <<x>> ELSE <<x>> \o Anc(f, f.par[x])

RECURSIVE IsAncOrSelf(_, _, _)    \* is a an ancestor of x, or x itself?
IsAncOrSelf(f, a, x) == IF a = x THEN TRUE
                        ELSE IF f.par[x] = 0 THEN FALSE
                        ELSE IsAncOrSelf(f, a, f.par[x])

RECURSIVE RootOf(_, _)
RootOf(f, x) == IF f.par[x] = 0 THEN x ELSE RootOf(f, f.par[x])

RECURSIVE PreOrder(_, _)
PreOrder(f, x) == FoldLeft(LAMBDA acc, c : acc \o PreOrder(f, c), <<x>>, f.kids[x])

RECURSIVE PostOrder(_, _)
PostOrder(f, x) == FoldLeft(LAMBDA acc, c : acc \o PostOrder(f, c), <<>>, f.kids[x]) \o <<x>>

Desc(f, x) == LET s == PreOrder(f, x) IN {s[i] : i \in 1..Len(s)}   \* x included

SibSeq(f, x) == IF IsRoot(f, x) THEN <<x>> ELSE f.kids[f.par[x]]

---------------------------------------------------------------------------
(* What the neighbour accessors report; 0 stands for None                   *)

Parent(f, x) == f.par[x]
FirstKid(f, x)  == IF f.kids[x] = <<>> THEN 0 ELSE f.kids[x][1]
LastKid(f, x)   == IF f.kids[x] = <<>> THEN 0 ELSE f.kids[x][Len(f.kids[x])]
NextSib(f, x) == LET s == SibSeq(f, x) i == PosIn(s, x) IN IF i = Len(s) THEN 0 ELSE s[i + 1]
PrevSib(f, x) == LET s == SibSeq(f, x) i == PosIn(s, x) IN IF i = 1 THEN 0 ELSE s[i - 1]

---------------------------------------------------------------------------
(* Creation                                                                *)

AddRoot(f, d) == [par  |-> Append(f.par, 0),
                  kids |-> Append(f.kids, <<>>),
                  data |-> Append(f.data, d)]

---------------------------------------------------------------------------
(* Detaching and placing.  Positions: 1 first child, 2 last child,          *)
(* 3 previous sibling, 4 next sibling (of the anchor).                      *)

Positions == 1..4
BesidePos(pos) == pos \in {3, 4}

Cut(f, x) ==
    IF f.par[x] = 0 THEN f
    ELSE [f EXCEPT !.kids[f.par[x]] = Without(@, x), !.par[x] = 0]

(* The forest after x (a root) has been put at position pos of y.           *)
Place(f, x, pos, y) ==
    LET p == IF BesidePos(pos) THEN f.par[y] ELSE y
        s == f.kids[p]
        i == CASE pos = 1 -> 1
               [] pos = 2 -> Len(s) + 1
               [] pos = 3 -> PosIn(s, y)
               [] pos = 4 -> PosIn(s, y) + 1
    IN  [f EXCEPT !.kids[p] = Splice(s, i, i - 1, <<x>>), !.par[x] = p]

InsertPost(f, x, pos, y) == Place(Cut(f, x), x, pos, y)

(* The set of replies the documentation allows.  More than one only where  *)
(* a call is wrong in two ways at once and no precedence is documented.     *)
InsertReplies(f, x, pos, y) ==
    LET besideSelf == BesidePos(pos) /\ x = y
        besideRoot == BesidePos(pos) /\ Alive(f, y) /\ IsRoot(f, y)
        deadArg    == ~Alive(f, x) \/ ~Alive(f, y)
        loop       == /\ ~deadArg
                      /\ IF BesidePos(pos)
                         THEN ~besideRoot /\ IsAncOrSelf(f, x, f.par[y])
                         ELSE IsAncOrSelf(f, x, y)
        wrong == (IF deadArg THEN {"panic"} ELSE {})
                 \cup (IF besideSelf THEN {"unord"} ELSE {})
                 \cup (IF besideRoot THEN {"noparent"} ELSE {})
                 \cup (IF loop /\ ~besideSelf THEN {"loop"} ELSE {})
    IN  IF wrong = {} THEN {"ok"} ELSE wrong

CreateInsertReplies(f, pos, y) ==
    IF ~Alive(f, y) \/ (BesidePos(pos) /\ IsRoot(f, y)) THEN {"panic"} ELSE {"ok"}

CreateInsertPost(f, d, pos, y) == Place(AddRoot(f, d), Size(f) + 1, pos, y)

DetachSingleReplies(f, x) ==
    IF ~Alive(f, x) THEN {"panic"}
    ELSE IF IsRoot(f, x) /\ Len(f.kids[x]) > 1 THEN {"noparent"} ELSE {"ok"}

DetachSinglePost(f, x) ==
    LET cs == f.kids[x]
        p  == f.par[x]
        up == IF p = 0 THEN f.kids
              ELSE [f.kids EXCEPT ![p] = Splice(@, PosIn(@, x), PosIn(@, x), cs)]
        cset == {cs[i] : i \in 1..Len(cs)}
    IN  [f EXCEPT !.kids = [up EXCEPT ![x] = <<>>],
                  !.par  = [y \in 1..Len(f.par) |->
                              IF y = x THEN 0 ELSE IF y \in cset THEN p ELSE f.par[y]]]

---------------------------------------------------------------------------
(* Removal                                                                 *)

Kill(f, D) == \* the nodes of D die; D is closed under descendants
    [par  |-> [y \in 1..Len(f.par) |-> IF y \in D THEN Dead ELSE f.par[y]],
     kids |-> [y \in 1..Len(f.par) |-> IF y \in D THEN <<>>
                                       ELSE SelectSeq(f.kids[y], LAMBDA c : c \notin D)],
     data |-> [y \in 1..Len(f.par) |-> IF y \in D THEN 0 ELSE f.data[y]]]

RemovePost(f, x) == Kill(f, Desc(f, x))

(* The hook of the panic-safe removal panics at its k-th call.              *)
RemovePanicPost(f, x, k) ==
    LET po == PostOrder(f, x) IN Kill(Cut(f, x), {po[i] : i \in 1..k})

---------------------------------------------------------------------------
(* Cloning the subtree of x in g as a new tree of f; the copies are named   *)
(* in preorder.  f and g may be the same forest value.                      *)

CloneName(f, g, x, y) == Size(f) + PosIn(PreOrder(g, x), y)

ClonePost(f, g, x) ==
    LET s == PreOrder(g, x)
        n == Size(f)
        pos == [y \in {s[i] : i \in 1..Len(s)} |-> PosIn(s, y)]
    IN  [par  |-> f.par  \o [i \in 1..Len(s) |-> IF i = 1 THEN 0 ELSE n + pos[g.par[s[i]]]],
         kids |-> f.kids \o [i \in 1..Len(s) |->
                     [j \in 1..Len(g.kids[s[i]]) |-> n + pos[g.kids[s[i]][j]]]],
         data |-> f.data \o [i \in 1..Len(s) |-> g.data[s[i]]]]

SetData(f, x, d) == [f EXCEPT !.data[x] = d]

---------------------------------------------------------------------------
(* Traversals, as whole sequences.  An open event of x is x, a close -x.    *)

RECURSIVE Dft(_, _)
Dft(f, x) == Append(FoldLeft(LAMBDA acc, c : acc \o Dft(f, c), <<x>>, f.kids[x]), -x)

RECURSIVE DftD(_, _, _)           \* with depths: <<event, depth>>
DftD(f, x, d) ==
    Append(FoldLeft(LAMBDA acc, c : acc \o DftD(f, c, d + 1), <<<<x, d>>>>, f.kids[x]),
           <<-x, d>>)

(* The depth-limited walk: the full walk without what lies deeper.          *)
Shallow(f, x, m) == SelectSeq(DftD(f, x, 0), LAMBDA e : e[2] <= m)

RECURSIVE Levels(_, _, _)
Levels(f, lvl, d) ==
    IF lvl = <<>> THEN <<>>
    ELSE [i \in 1..Len(lvl) |-> <<lvl[i], d>>]
         \o Levels(f, FoldLeft(LAMBDA acc, y : acc \o f.kids[y], <<>>, lvl), d + 1)
Bft(f, x) == Levels(f, <<x>>, 0)

Following(f, x) == LET s == SibSeq(f, x) IN SubSeq(s, PosIn(s, x) + 1, Len(s))
Preceding(f, x) == LET s == SibSeq(f, x) IN SubSeq(s, 1, PosIn(s, x) - 1)

\* All that is expected of the traversals and accessors of a live node.
TravOf(f, x) ==
    <<DftD(f, x, 0), Bft(f, x), Anc(f, x), f.kids[x], Following(f, x), Preceding(f, x),
      Parent(f, x), FirstKid(f, x), LastKid(f, x), PrevSib(f, x), NextSib(f, x)>>

=============================================================================
