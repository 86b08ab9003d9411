------------------------------ MODULE Cursors ------------------------------
(***************************************************************************)
(* The iterators as the machines they are: a cursor moves along the links   *)
(* of a fixed forest f (parent, first and last child, previous and next     *)
(* sibling), one item per call, from either end.                            *)
(*                                                                         *)
(* The theorem checked over all small trees (MCCursors) is that every       *)
(* cursor refines the deque of module Iterators: whatever the interleaving, *)
(* it yields a prefix and a suffix of the one sequence ItemsOf, its pending *)
(* pair is the next item of each end, and it stops where they meet.         *)
(***************************************************************************)
EXTENDS Iterators

None == <<>>

---------------------------------------------------------------------------
(* Depth-first: an event is x (open) or -x (close).                         *)

DftAfter(f, e) ==
    IF e > 0
    THEN IF FirstKid(f, e) # 0 THEN FirstKid(f, e) ELSE -e
    ELSE IF NextSib(f, -e) # 0 THEN NextSib(f, -e) ELSE -Parent(f, -e)

DftBefore(f, e) ==
    IF e < 0
    THEN IF LastKid(f, -e) # 0 THEN -LastKid(f, -e) ELSE -e
    ELSE IF PrevSib(f, e) # 0 THEN -PrevSib(f, e) ELSE Parent(f, e)

(* Depth-limited: <<event, depth>>; m is the limit or NoLimit.              *)
ShAfter(f, m, e) ==
    LET x == e[1] d == e[2] IN
    IF x > 0
    THEN IF d = m THEN <<-x, d>>
         ELSE IF FirstKid(f, x) # 0 THEN <<FirstKid(f, x), d + 1>> ELSE <<-x, d>>
    ELSE IF NextSib(f, -x) # 0 THEN <<NextSib(f, -x), d>> ELSE <<-Parent(f, -x), d - 1>>

ShBefore(f, m, e) ==
    LET x == e[1] d == e[2] IN
    IF x < 0
    THEN IF d = m THEN <<-x, d>>
         ELSE IF LastKid(f, -x) # 0 THEN <<-LastKid(f, -x), d + 1>> ELSE <<-x, d>>
    ELSE IF PrevSib(f, x) # 0 THEN <<-PrevSib(f, x), d>> ELSE <<Parent(f, x), d - 1>>

---------------------------------------------------------------------------
(* Two-ended cursors: the pair of pending items, or None.                   *)

TwoEnded == {"dft", "shallow", "kids", "fol", "fols", "pre", "pres"}

After(f, kind, m, e) ==
    CASE kind = "dft"     -> <<DftAfter(f, e[1])>>
      [] kind = "shallow" -> ShAfter(f, m, e)
      [] OTHER            -> <<NextSib(f, e[1])>>
Before(f, kind, m, e) ==
    CASE kind = "dft"     -> <<DftBefore(f, e[1])>>
      [] kind = "shallow" -> ShBefore(f, m, e)
      [] OTHER            -> <<PrevSib(f, e[1])>>

PairNext(f, kind, m, c) ==
    IF c = None THEN [res |-> None, c |-> None]
    ELSE [res |-> c[1], c |-> IF c[1] = c[2] THEN None ELSE <<After(f, kind, m, c[1]), c[2]>>]
PairNextBack(f, kind, m, c) ==
    IF c = None THEN [res |-> None, c |-> None]
    ELSE [res |-> c[2], c |-> IF c[1] = c[2] THEN None ELSE <<c[1], Before(f, kind, m, c[2])>>]

PairStart(f, kind, x, m) ==
    LET first == IF IsRoot(f, x) THEN x ELSE FirstKid(f, Parent(f, x))
        last  == IF IsRoot(f, x) THEN x ELSE LastKid(f, Parent(f, x))
    IN  CASE kind = "dft"     -> <<<<x>>, <<-x>>>>
          [] kind = "shallow" -> <<<<x, 0>>, <<-x, 0>>>>
          [] kind = "kids"    -> IF FirstKid(f, x) = 0 THEN None ELSE <<<<FirstKid(f, x)>>, <<LastKid(f, x)>>>>
          [] kind = "fols"    -> <<<<x>>, <<last>>>>
          [] kind = "fol"     -> PairNext(f, kind, m, <<<<x>>, <<last>>>>).c      \* the first one is skipped
          [] kind = "pres"    -> <<<<first>>, <<x>>>>
          [] kind = "pre"     -> PairNextBack(f, kind, m, <<<<first>>, <<x>>>>).c \* the last one is skipped

---------------------------------------------------------------------------
(* Ancestors: the pending node, or 0.                                       *)

AncNext(f, c) == IF c = 0 THEN [res |-> None, c |-> 0] ELSE [res |-> <<c>>, c |-> Parent(f, c)]
AncStart(f, kind, x) == IF kind = "ancs" THEN x ELSE AncNext(f, x).c

---------------------------------------------------------------------------
(* Breadth-first without a queue: depth-limited walks, one per level.       *)

RECURSIVE SkipTo(_, _, _)   \* the next open event of depth d of the inner walk
SkipTo(f, d, inner) ==
    LET s == PairNext(f, "shallow", d, inner) IN
    IF s.res = None THEN [id |-> 0, inner |-> None]
    ELSE IF s.res[2] = d /\ s.res[1] > 0 THEN [id |-> s.res[1], inner |-> s.c]
    ELSE SkipTo(f, d, s.c)

BftStart(f, x) == [root |-> x, d |-> 0, inner |-> PairStart(f, "shallow", x, 0)]
BftNext(f, c) ==
    IF c.root = 0 THEN [res |-> None, c |-> c]
    ELSE LET a == SkipTo(f, c.d, c.inner) IN
         IF a.id # 0 THEN [res |-> <<a.id, c.d>>, c |-> [c EXCEPT !.inner = a.inner]]
         ELSE LET b == SkipTo(f, c.d + 1, PairStart(f, "shallow", c.root, c.d + 1)) IN
              IF b.id # 0 THEN [res |-> <<b.id, c.d + 1>>, c |-> [c EXCEPT !.d = @ + 1, !.inner = b.inner]]
              ELSE [res |-> None, c |-> [root |-> 0, d |-> c.d + 1, inner |-> None]]

---------------------------------------------------------------------------
(* Breadth-first with a queue; 0 in the queue separates the levels.         *)

AbftStart(x) == [q |-> <<x, 0>>, d |-> 0]
RECURSIVE AbftNext(_, _)
AbftNext(f, c) ==
    IF c.q = <<>> THEN [res |-> None, c |-> c]
    ELSE LET h == Head(c.q) r == Tail(c.q) IN
         IF h # 0 THEN [res |-> <<h, c.d>>, c |-> [c EXCEPT !.q = r \o f.kids[h]]]
         ELSE IF r = <<>> THEN [res |-> None, c |-> [c EXCEPT !.q = <<>>]]
         ELSE AbftNext(f, [q |-> Append(r, 0), d |-> c.d + 1])
AbftPeek(c) ==
    IF c.q = <<>> THEN None
    ELSE IF Head(c.q) # 0 THEN <<Head(c.q), c.d>>
    ELSE IF Len(c.q) = 1 THEN None ELSE <<c.q[2], c.d + 1>>
\* lower bound and upper bound (-1: unknown)
AbftHint(c) == IF Len(c.q) <= 1 THEN <<0, 0>> ELSE <<Len(c.q) - 1, -1>>

---------------------------------------------------------------------------
(* All of them alike                                                       *)

Kinds == TwoEnded \cup {"ancs", "anc", "bft", "abft"}

Start(f, kind, x, m) ==
    CASE kind \in TwoEnded        -> PairStart(f, kind, x, m)
      [] kind \in {"ancs", "anc"} -> AncStart(f, kind, x)
      [] kind = "bft"             -> BftStart(f, x)
      [] kind = "abft"            -> AbftStart(x)

CNext(f, kind, m, c) ==
    CASE kind \in TwoEnded        -> PairNext(f, kind, m, c)
      [] kind \in {"ancs", "anc"} -> AncNext(f, c)
      [] kind = "bft"             -> BftNext(f, c)
      [] kind = "abft"            -> AbftNext(f, c)

CNextBack(f, kind, m, c) == PairNextBack(f, kind, m, c)
=============================================================================
