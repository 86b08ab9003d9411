------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* The two tree builders, call by call.                                     *)
(*                                                                         *)
(* Chain builder: b.f the forest, b.root the root it was made with, b.cur   *)
(* the current node.  A step yields the new builder and the allowed reply.  *)
(***************************************************************************)
EXTENDS ForestOps

ChainNew(f, d) == [f |-> AddRoot(f, d), root |-> Size(f) + 1, cur |-> Size(f) + 1]

ChainChild(b, d) ==
    IF Alive(b.f, b.cur)
    THEN [b |-> [b EXCEPT !.f = CreateInsertPost(b.f, d, 2, b.cur), !.cur = Size(b.f) + 1], r |-> "ok"]
    ELSE [b |-> b, r |-> "panic"]

ChainSibling(b, d) ==
    IF Alive(b.f, b.cur) /\ ~IsRoot(b.f, b.cur)
    THEN [b |-> [b EXCEPT !.f = CreateInsertPost(b.f, d, 4, b.cur), !.cur = Size(b.f) + 1], r |-> "ok"]
    ELSE [b |-> b, r |-> "panic"]

ChainParent(b) ==
    IF Alive(b.f, b.cur) /\ ~IsRoot(b.f, b.cur)
    THEN [b |-> [b EXCEPT !.cur = b.f.par[b.cur]], r |-> "ok"]
    ELSE [b |-> b, r |-> "panic"]

ChainTryParent(b) ==
    IF ~Alive(b.f, b.cur) THEN [b |-> b, r |-> "panic"]
    ELSE IF IsRoot(b.f, b.cur) THEN [b |-> b, r |-> "none"]
    ELSE [b |-> [b EXCEPT !.cur = b.f.par[b.cur]], r |-> "ok"]

(***************************************************************************)
(* Nest builder: a stack of the nodes whose closures are running, the       *)
(* innermost last.  Tokens: "add" a child, "open" a child and enter its     *)
(* closure, "close" the innermost closure.                                  *)
(***************************************************************************)
NestNew(f, d) == [f |-> AddRoot(f, d), stack |-> <<Size(f) + 1>>]

NestRoot(n) == n.stack[Len(n.stack)]

NestAdd(n, d) == [n EXCEPT !.f = CreateInsertPost(n.f, d, 2, NestRoot(n))]

NestOpen(n, d) == [f |-> CreateInsertPost(n.f, d, 2, NestRoot(n)),
                   stack |-> Append(n.stack, Size(n.f) + 1)]

NestClose(n) == [n EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
