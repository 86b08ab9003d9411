------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* The link records of the arena and the algorithms on them, step by step. *)
(*                                                                         *)
(* Per node: par the parent, pc the cyclic previous sibling (of a first     *)
(* child: the last child; of a root: itself), nx the next sibling, fc the   *)
(* first child; 0 is None.  A removed node has pc = 0.                      *)
(*                                                                         *)
(* Repr(f) are the records of a forest value f.  The theorem checked        *)
(* (MCLinks) is that every algorithm leads from Repr(f) to Repr(f'), f'     *)
(* being what ForestOps says: since Repr is a function and Empty is         *)
(* Repr(EmptyForest), all histories stay within Repr, nothing is hidden in  *)
(* the records, and what the accessors read from them is what ForestOps     *)
(* reads from f.                                                            *)
(***************************************************************************)
EXTENDS ForestOps

Rec(p, c, n, k) == [par |-> p, pc |-> c, nx |-> n, fc |-> k]
Gone == Rec(0, 0, 0, 0)

Repr(f) == [x \in Names(f) |->
    IF ~Alive(f, x) THEN Gone
    ELSE LET s == SibSeq(f, x) i == PosIn(s, x) IN
         Rec(f.par[x], s[IF i = 1 THEN Len(s) ELSE i - 1], IF i = Len(s) THEN 0 ELSE s[i + 1], FirstKid(f, x))]

---------------------------------------------------------------------------
(* What the accessors compute                                              *)

LAlive(L, x)  == x \in DOMAIN L /\ L[x].pc # 0
LPrev(L, x)   == IF L[L[x].pc].nx = 0 THEN 0 ELSE L[x].pc
LLast(L, x)   == IF L[x].fc = 0 THEN 0 ELSE L[L[x].fc].pc

RECURSIVE LAncestor(_, _, _)      \* is a the node y, or above it?
LAncestor(L, a, y) == IF a = y THEN TRUE ELSE IF L[y].par = 0 THEN FALSE ELSE LAncestor(L, a, L[y].par)

---------------------------------------------------------------------------
(* connect_triangle: p the parent, a and b adjacent children of it, or 0.   *)

Connect(L, p, a, b) ==
    LET L1 == IF a = 0 THEN L ELSE [L EXCEPT ![a].par = p, ![a].nx = b]
        c  == IF a # 0 THEN a
              ELSE IF p # 0 THEN (IF LLast(L1, p) = 0 THEN b ELSE LLast(L1, p))
              ELSE b
        L2 == IF b = 0 THEN L1 ELSE [L1 EXCEPT ![b].par = p, ![b].pc = c]
    IN  IF p = 0 THEN L2
        ELSE IF a = 0 THEN [L2 EXCEPT ![p].fc = b]
        ELSE IF b = 0 THEN [L2 EXCEPT ![L2[p].fc].pc = a]
        ELSE L2

Alone(L, x) == [L EXCEPT ![x].par = 0, ![x].nx = 0, ![x].pc = x]

LDetach(L, x) ==
    IF L[x].par = 0 THEN L
    ELSE Alone(Connect(L, L[x].par, LPrev(L, x), L[x].nx), x)

\* The range a..b of siblings is moved under p, between the siblings u and v.
RECURSIVE Reparent(_, _, _, _)
Reparent(L, a, b, p) ==
    IF a = b THEN [L EXCEPT ![a].par = p]
    ELSE Reparent([L EXCEPT ![a].par = p], L[a].nx, b, p)

Transplant(L, a, b, p, u, v) ==
    IF u = b \/ v = a THEN L          \* it is there already
    ELSE LET L1 == Connect(L, L[a].par, LPrev(L, a), L[b].nx)
             L2 == Reparent(L1, a, b, p)
             L3 == IF u = a THEN L2 ELSE Connect(L2, p, u, a)
         IN  IF v = b THEN L3 ELSE Connect(L3, p, b, v)

LDetachSingle(L, x) ==
    LET a == L[x].fc b == LLast(L, x) p == L[x].par IN
    IF a = 0 THEN [r |-> "ok", L |-> LDetach(L, x)]
    ELSE IF p = 0
    THEN IF a # b THEN [r |-> "noparent", L |-> L]
         ELSE [r |-> "ok", L |-> LDetach(LDetach(L, a), x)]
    ELSE LET u == LPrev(L, x) v == L[x].nx IN
         [r |-> "ok", L |-> Alone(Transplant(Connect(L, p, u, v), a, b, p, u, v), x)]

LInsert(L, x, pos, y) ==
    LET p == IF BesidePos(pos) THEN L[y].par ELSE y
        u == CASE pos = 1 -> 0 [] pos = 2 -> LLast(L, y) [] pos = 3 -> LPrev(L, y) [] pos = 4 -> y
        v == CASE pos = 1 -> L[y].fc [] pos = 2 -> 0 [] pos = 3 -> y [] pos = 4 -> L[y].nx
    IN  IF BesidePos(pos) /\ x = y THEN [r |-> "unord", L |-> L]
        ELSE IF p = 0 THEN [r |-> "noparent", L |-> L]
        ELSE IF LAncestor(L, x, p) THEN [r |-> "loop", L |-> L]
        ELSE [r |-> "ok", L |-> Transplant(L, x, x, p, u, v)]

LCreate(L) == Append(L, Rec(0, Len(L) + 1, 0, 0))

---------------------------------------------------------------------------
(* Removal: a depth-first walk that looks ahead one event, so that it never *)
(* refers to a node it has left.  The pending event and the one after it:   *)
(* >0 opening, <0 closing, 0 none.                                          *)

WalkAfter(L, root, e) ==
    IF e = -root THEN 0
    ELSE IF e > 0 THEN (IF L[e].fc # 0 THEN L[e].fc ELSE -e)
    ELSE IF L[-e].nx # 0 THEN L[-e].nx ELSE -L[-e].par

\* Careful: each node is detached, then removed, then handed out; k are handed out, then it stops.
RECURSIVE LRemove(_, _, _, _, _, _)
LRemove(L, root, e, k, out, careful) ==
    IF e = 0 \/ k = 0 THEN [L |-> L, out |-> out]
    ELSE IF e > 0 THEN LRemove(L, root, WalkAfter(L, root, e), k, out, careful)
    ELSE LET after == WalkAfter(L, root, e)
             M == IF careful THEN LDetach(L, -e) ELSE L
         IN  LRemove([M EXCEPT ![-e] = Gone], root, after, k - 1, Append(out, -e), careful)

LRemoveAll(L, x, careful) == LRemove(LDetach(L, x), x, x, Len(L), <<>>, careful)
LRemovePanic(L, x, k) == LRemove(LDetach(L, x), x, x, k, <<>>, TRUE)

---------------------------------------------------------------------------
(* Cloning: the source is walked in document order; the copy of a node that *)
(* opens becomes the last child of the copy of its parent.                  *)

LClone(L, S, x) ==      \* of the tree under x of the records S into L
    LET RECURSIVE Go(_, _, _)
        Go(M, e, cur) ==
            IF e = 0 THEN M
            ELSE IF e > 0
            THEN LET n == Len(M) + 1
                     C == LCreate(M)
                 IN Go(IF cur = 0 THEN C ELSE LInsert(C, n, 2, cur).L, WalkAfter(S, x, e), n)
            ELSE Go(M, WalkAfter(S, x, e), M[cur].par)
    IN  Go(L, x, 0)
=============================================================================
