------------------------------ MODULE MCLinks ------------------------------
(* Every algorithm on the records of every forest up to MaxN nodes (every   *)
(* other one next to a removed node), against ForestOps.                    *)
EXTENDS Links, Shapes, TLC

CONSTANT MaxN

VARIABLE f

RECURSIVE ForestShapes(_)
ForestShapes(n) == IF n = 1 THEN {<<0>>}
                   ELSE UNION {{Append(p, q) : q \in Up(p, n - 1) \cup {0}} : p \in ForestShapes(n - 1)}

WithGone(g) == [par |-> Append(g.par, Dead), kids |-> Append(g.kids, <<>>), data |-> Append(g.data, 0)]

Init == \E n \in 1..MaxN : \E p \in ForestShapes(n) : f \in {FromPar(p), WithGone(FromPar(p))}
Spec == Init /\ [][FALSE]_f

N == Live(f)
L == Repr(f)

Accessors == \A x \in N : /\ LAlive(L, x) /\ L[x].par = Parent(f, x)
                          /\ LPrev(L, x) = PrevSib(f, x) /\ L[x].nx = NextSib(f, x)
                          /\ L[x].fc = FirstKid(f, x) /\ LLast(L, x) = LastKid(f, x)
Dead_ == \A x \in Names(f) : LAlive(L, x) <=> Alive(f, x)
Creates == LCreate(L) = Repr(AddRoot(f, 0))
Inserts == \A x, y \in N, pos \in Positions :
    LET r == InsertReplies(f, x, pos, y) q == LInsert(L, x, pos, y) IN
    /\ q.r \in r
    /\ q.L = IF r = {"ok"} THEN Repr(InsertPost(f, x, pos, y)) ELSE L
Detaches == \A x \in N : LDetach(L, x) = Repr(Cut(f, x))
DetachesSingle == \A x \in N :
    LET q == LDetachSingle(L, x) IN
    /\ {q.r} = DetachSingleReplies(f, x)
    /\ q.L = IF q.r = "ok" THEN Repr(DetachSinglePost(f, x)) ELSE L
Removes == \A x \in N : \A careful \in BOOLEAN :
    LET q == LRemoveAll(L, x, careful) IN q.L = Repr(RemovePost(f, x)) /\ q.out = PostOrder(f, x)
RemovesPanicking == \A x \in N : \A k \in 1..Cardinality(Desc(f, x)) :
    LET q == LRemovePanic(L, x, k) IN
    q.L = Repr(RemovePanicPost(f, x, k)) /\ q.out = SubSeq(PostOrder(f, x), 1, k)
Clones == \A x \in N : LClone(L, L, x) = Repr(ClonePost(f, f, x))
=============================================================================
