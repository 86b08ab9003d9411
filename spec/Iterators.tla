----------------------------- MODULE Iterators -----------------------------
(***************************************************************************)
(* What a traversal is: a fixed sequence of items, of which the iterator    *)
(* takes some from the front and some from the back.                       *)
(***************************************************************************)
EXTENDS ForestOps

NoLimit == -1

\* The sequence an iterator of a kind yields, started at x (m: depth limit).
ItemsOf(f, kind, x, m) ==
    CASE kind = "dft"     -> LET s == Dft(f, x) IN [k \in 1..Len(s) |-> <<s[k]>>]
      [] kind = "shallow" -> IF m = NoLimit THEN DftD(f, x, 0) ELSE Shallow(f, x, m)
      [] kind \in {"bft", "abft"} -> Bft(f, x)
      [] kind = "ancs"    -> LET s == Anc(f, x) IN [k \in 1..Len(s) |-> <<s[k]>>]
      [] kind = "anc"     -> LET s == Anc(f, x) IN [k \in 1..(Len(s) - 1) |-> <<s[k + 1]>>]
      [] kind = "kids"    -> [k \in 1..Len(f.kids[x]) |-> <<f.kids[x][k]>>]
      [] kind = "fol"     -> LET s == Following(f, x) IN [k \in 1..Len(s) |-> <<s[k]>>]
      [] kind = "fols"    -> LET s == <<x>> \o Following(f, x) IN [k \in 1..Len(s) |-> <<s[k]>>]
      [] kind = "pre"     -> LET s == Preceding(f, x) IN [k \in 1..Len(s) |-> <<s[k]>>]
      [] kind = "pres"    -> LET s == Append(Preceding(f, x), x) IN [k \in 1..Len(s) |-> <<s[k]>>]

\* An iterator over s: the items lo+1 .. hi are still to come.
Fresh(s) == [lo |-> 0, hi |-> Len(s)]

\* next and next_back, skipping k items first (nth, nth_back); <<>> is None.
TakeFront(s, it, k) ==
    IF it.lo + k < it.hi
    THEN [res |-> s[it.lo + k + 1], it |-> [it EXCEPT !.lo = @ + k + 1]]
    ELSE [res |-> <<>>, it |-> [it EXCEPT !.lo = it.hi]]
TakeBack(s, it, k) ==
    IF it.lo + k < it.hi
    THEN [res |-> s[it.hi - k], it |-> [it EXCEPT !.hi = @ - k - 1]]
    ELSE [res |-> <<>>, it |-> [it EXCEPT !.hi = it.lo]]
PeekFront(s, it) == IF it.lo < it.hi THEN s[it.lo + 1] ELSE <<>>
PeekBack(s, it)  == IF it.lo < it.hi THEN s[it.hi] ELSE <<>>
Remaining(it) == it.hi - it.lo
\* A size hint <<lower, upper>> is sound (upper -1: unknown).
HintSound(it, l, u) == l <= Remaining(it) /\ (u = -1 \/ u >= Remaining(it))
=============================================================================
