----------------------------- MODULE MCPrograms -----------------------------
(* The builder programs that build given trees: all small ones and members  *)
(* of families of big ones.  Checked: the program builds that tree.         *)
EXTENDS Builders, Shapes, TLC

CONSTANTS Mode,      \* "chain" or "nest"
          MaxN,      \* all trees up to this size
          Families   \* sequence of <<name, size>>

VARIABLE f
Init == \/ \E n \in 1..MaxN : \E p \in Shapes(n) : f = FromPar(p)
        \/ \E i \in 1..Len(Families) : f = FromPar(Family(Families[i][1], Families[i][2]))
Spec == Init /\ [][FALSE]_f

\* Calls that add what is below x, when x is the current node, and come back to it.
RECURSIVE ChainCalls(_)
ChainCalls(x) ==
    LET c == f.kids[x] IN
    IF c = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, k : acc \o <<IF k = 1 THEN "child" ELSE "sibling">> \o ChainCalls(c[k]),
                  <<>>, [k \in 1..Len(c) |-> k])
         \o <<IF x % 2 = 0 THEN "parent" ELSE "tryparent">>

RECURSIVE NestCalls(_)
NestCalls(x) ==
    FoldLeft(LAMBDA acc, y : acc \o IF f.kids[y] = <<>> /\ y % 3 # 0 THEN <<"add">>
                                    ELSE <<"open">> \o NestCalls(y) \o <<"close">>,
             <<>>, f.kids[x])

Calls == IF Mode = "chain" THEN ChainCalls(1) ELSE NestCalls(1)

ChainCall(b, c) == (CASE c = "child" -> ChainChild(b, 0) [] c = "sibling" -> ChainSibling(b, 0)
                      [] c = "parent" -> ChainParent(b) [] c = "tryparent" -> ChainTryParent(b)).b
NestCall(n, c) == CASE c = "add" -> NestAdd(n, 0) [] c = "open" -> NestOpen(n, 0) [] c = "close" -> NestClose(n)

\* The builder in the end, and what it reported as current (root) after each call.
Run == IF Mode = "chain"
       THEN FoldLeft(LAMBDA st, c : LET q == ChainCall(st[1], c) IN <<q, Append(st[2], q.cur)>>,
                     <<ChainNew(EmptyForest, 0), <<>>>>, Calls)
       ELSE FoldLeft(LAMBDA st, c : LET q == NestCall(st[1], c) IN <<q, Append(st[2], NestRoot(q))>>,
                     <<NestNew(EmptyForest, 0), <<1>>>>, Calls)

\* The tree is built, its nodes created in document order.
Builds(r) == LET s == PreOrder(f, 1)
                 at == [y \in Names(f) |-> PosIn(s, y)] IN
          /\ Len(s) = Size(r[1].f) /\ r[1].f.par[1] = 0
          /\ \A k \in 2..Len(s) : r[1].f.par[k] = at[f.par[s[k]]]
          /\ \A k \in 1..Len(s) : r[1].f.kids[k] = [j \in 1..Len(f.kids[s[k]]) |-> at[f.kids[s[k]][j]]]
Emit == LET r == Run IN
        /\ Builds(r)
        /\ PrintT(ToString(<<IF Mode = "chain" THEN "C" ELSE "N", Calls, r[2],
                             <<r[1].f.par, r[1].f.kids, r[1].f.data>>>>))
=============================================================================
