----------------------------- MODULE MCBuilders -----------------------------
(* All programs of the two builders within bounds.                          *)
(*                                                                         *)
(* Chain: the state graph of a builder (forest, root, current), with direct *)
(* changes of the forest in between (WithEdits); the harness runs every     *)
(* path of it.  Nest: every program of nested calls, kept in the state.     *)
EXTENDS Builders, TLC

CONSTANTS Mode,       \* "chain" or "nest"
          MaxNew,     \* nodes the builder may add, its root included
          WithOthers, \* TRUE: there are other trees, and a removed node
          WithEdits,  \* TRUE: nodes are detached, moved and removed in between
          MaxCalls    \* length of the programs

VARIABLES b,          \* chain: [f, root, cur]; nest: [f, stack]
          prog, roots \* nest: the calls so far, and the root reported after each
vars == <<b, prog, roots>>

F0 == IF ~WithOthers THEN EmptyForest
      ELSE LET f1 == AddRoot(EmptyForest, 0)
               f2 == CreateInsertPost(f1, 0, 2, 1)
               f3 == AddRoot(f2, 0)
           IN  RemovePost(f3, 3)
Room == Size(b.f) < Size(F0) + MaxNew
Toks == <<"add", "open", "close">>

Init == /\ b = IF Mode = "chain" THEN ChainNew(F0, 0) ELSE NestNew(F0, 0)
        /\ prog = <<>>
        /\ roots = IF Mode = "chain" THEN <<>> ELSE <<NestRoot(b)>>

EncB(v) == <<<<v.f.par, v.f.kids, v.f.data>>, v.root, v.cur>>
ChainDo(c, x, y, s) ==
    /\ b' = s.b
    /\ UNCHANGED <<prog, roots>>
    /\ PrintT(ToString(<<"B", EncB(b), c, x, y, s.r, EncB(b')>>))
Edit(c, x, y, r, post) ==
    ChainDo(c, x, y, [b |-> IF r = "ok" THEN [b EXCEPT !.f = post] ELSE b, r |-> r])
IfAlive(x) == IF Alive(b.f, x) THEN "ok" ELSE "panic"

ChainStep ==
    \/ Room /\ ChainDo("child", 0, 0, ChainChild(b, 0))
    \/ Room /\ ChainDo("sibling", 0, 0, ChainSibling(b, 0))
    \/ ChainDo("parent", 0, 0, ChainParent(b))
    \/ ChainDo("tryparent", 0, 0, ChainTryParent(b))
    \/ WithEdits /\ \E x \in Names(b.f) :
           \/ Edit("det", x, 0, IfAlive(x), IF Alive(b.f, x) THEN Cut(b.f, x) ELSE b.f)
           \/ Edit("rem", x, 0, IfAlive(x), IF Alive(b.f, x) THEN RemovePost(b.f, x) ELSE b.f)
           \/ \E y \in Names(b.f) :         \* moved below y
                 /\ b.cur \in {x, y} \/ x = b.root
                 /\ x \in Live(b.f) /\ y \in Live(b.f) \ Desc(b.f, x)
                 /\ Edit("ins", x, y, "ok", InsertPost(b.f, x, 2, y))

NestDo(tok, n) ==
    /\ b' = n /\ prog' = Append(prog, tok) /\ roots' = Append(roots, NestRoot(n))
NestStep ==
    \/ Room /\ NestDo("add", NestAdd(b, 0))
    \/ Room /\ NestDo("open", NestOpen(b, 0))
    \/ Len(b.stack) > 1 /\ NestDo("close", NestClose(b))

Next == IF Mode = "chain" THEN ChainStep ELSE NestStep
Spec == Init /\ [][Next]_vars

\* Only the builder's tree grows; the rest stays as it was.
OthersUntouched ==
    ~WithEdits => \A y \in Names(F0) : b.f.par[y] = F0.par[y] /\ b.f.kids[y] = F0.kids[y]
\* Without edits, current is in the tree of the root.
InTree == (Mode = "chain" /\ ~WithEdits) => b.cur \in Desc(b.f, b.root)
\* In a nest program the nodes are created in document order.
InOrder == Mode = "nest" =>
    LET s == PreOrder(b.f, b.stack[1]) IN s = [k \in 1..Len(s) |-> Size(F0) + k]
\* The running closures are nested: each node the parent of the next, and its last child.
Nested == Mode = "nest" =>
    \A k \in 1..Len(b.stack) - 1 :
        b.f.par[b.stack[k + 1]] = b.stack[k] /\ LastKid(b.f, b.stack[k]) = b.stack[k + 1]

Short == TLCGet("level") <= MaxCalls     \* (as a constraint)

EmitStart == (Mode = "chain" /\ b = ChainNew(F0, 0)) => PrintT(ToString(<<"A", EncB(b)>>))
EmitNest == Mode = "nest" =>
    PrintT(ToString(<<"N", prog, roots, <<b.f.par, b.f.kids, b.f.data>>>>))
=============================================================================
