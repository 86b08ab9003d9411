---------------------------- MODULE ForestTrace ----------------------------
(***************************************************************************)
(* Validation of recorded executions.  Every file in Files is one run of    *)
(* the real code by the random driver of the harness: one JSON object per   *)
(* line, an event with the reply, what was handed out, and the projection   *)
(* of all forests (per node: parent, previous, next, first, last, datum).   *)
(*                                                                         *)
(* The trace is accepted if every event is what the specification           *)
(* (ForestOps, Iterators, Builders, Printing) allows at that point.  What   *)
(* is not allowed is printed as a line "V" with the properties it breaks;   *)
(* after a state that is not the specified one, the trace is left.          *)
(***************************************************************************)
EXTENDS Iterators, Builders, Printing, Json, TLC

CONSTANT Files        \* sequence of file names

Traces == [i \in 1..Len(Files) |-> ndJsonDeserialize(Files[i])]

VARIABLES t,          \* which trace
          l,          \* next line
          w,          \* the specification's forests
          lost,       \* ids that refused creations may have used up, per forest
          bad         \* what was wrong with the last event
vars == <<t, l, w, lost, bad>>

Meta(i) == Traces[i][1]        \* first line: nf, cap (0: no limit), fill, name

SetOf(s) == {s[k] : k \in 1..Len(s)}

---------------------------------------------------------------------------
(* Comparing a projection with a forest value                              *)

\* nodes whose observed row differs from the specified one
Differ(f, o) ==
    LET n == Size(f)
        KidsAgree(x) ==
            LET s == f.kids[x] IN
            /\ o.fc[x] = (IF s = <<>> THEN 0 ELSE s[1])
            /\ o.lc[x] = (IF s = <<>> THEN 0 ELSE s[Len(s)])
        LinkBad(s) == {s[k] : k \in {j \in 1..Len(s) :
                          \/ o.pv[s[j]] # (IF j = 1 THEN 0 ELSE s[j - 1])
                          \/ o.nx[s[j]] # (IF j = Len(s) THEN 0 ELSE s[j + 1])}}
    IN  {x \in 1..n :
            IF f.par[x] = Dead
            THEN o.par[x] # Dead \/ o.pv[x] # Dead \/ o.nx[x] # Dead
                 \/ o.fc[x] # Dead \/ o.lc[x] # Dead \/ o.data[x] # Dead
            ELSE \/ o.par[x] # f.par[x] \/ o.data[x] # f.data[x] \/ ~KidsAgree(x)
                 \/ f.par[x] = 0 /\ (o.pv[x] # 0 \/ o.nx[x] # 0)}
        \cup UNION {LinkBad(f.kids[x]) : x \in 1..n}

LivenessDiffers(f, o, D) == \E x \in D : (o.par[x] = Dead) # (f.par[x] = Dead)
DataDiffers(f, o, D) == \E x \in D : f.par[x] # Dead /\ o.par[x] # Dead /\ o.data[x] # f.data[x]

\* C01 on the observation alone.
ObsConsistent(o) ==
    LET N == 1..Len(o.par)
        L == {x \in N : o.par[x] # Dead}
        ok(y) == y = 0 \/ y \in L
    IN  /\ \A x \in L : ok(o.par[x]) /\ ok(o.pv[x]) /\ ok(o.nx[x]) /\ ok(o.fc[x]) /\ ok(o.lc[x])
        /\ \A x \in L :
             /\ o.nx[x] # 0 => o.pv[o.nx[x]] = x /\ o.par[o.nx[x]] = o.par[x]
             /\ o.pv[x] # 0 => o.nx[o.pv[x]] = x /\ o.par[o.pv[x]] = o.par[x]
             /\ o.fc[x] # 0 => o.par[o.fc[x]] = x /\ o.pv[o.fc[x]] = 0
             /\ o.lc[x] # 0 => o.par[o.lc[x]] = x /\ o.nx[o.lc[x]] = 0
             /\ (o.fc[x] = 0) = (o.lc[x] = 0)
             /\ o.par[x] = 0 => o.pv[x] = 0 /\ o.nx[x] = 0
             /\ o.par[x] # 0 => (o.pv[x] = 0) = (o.fc[o.par[x]] = x)
             /\ o.par[x] # 0 => (o.nx[x] = 0) = (o.lc[o.par[x]] = x)

---------------------------------------------------------------------------
(* Operations                                                              *)

\* Capacity: is one more id certain, impossible, or either?
Cap(i) == Meta(t).cap
Used(i) == Size(w[i]) + Meta(t).fill
MustFit(i, k) == Cap(i) = 0 \/ Used(i) + lost[i] + k <= Cap(i) - 1
MayFit(i, k)  == Cap(i) = 0 \/ Used(i) + k <= Cap(i)

WithCap(i, k, r) ==     \* replies when k ids are needed and r would be the reply
    IF MustFit(i, k) THEN r
    ELSE IF MayFit(i, k) THEN r \cup {"panic"} ELSE {"panic"}

Needs(e) == CASE e.op \in {"root", "cins"} -> 1
              [] e.op = "clone" -> IF Alive(w[e.a[1]], e.a[2]) THEN Cardinality(Desc(w[e.a[1]], e.a[2])) ELSE 0
              [] OTHER -> 0

Replies(e) ==
    LET f == w[e.a[1]] IN
    CASE e.op = "root"  -> {"ok"}
      [] e.op = "cins"  -> CreateInsertReplies(f, e.a[2], e.a[3])
      [] e.op = "ins"   -> InsertReplies(f, e.a[2], e.a[3], e.a[4])
      [] e.op = "det"   -> IF Alive(f, e.a[2]) THEN {"ok"} ELSE {"panic"}
      [] e.op = "dets"  -> DetachSingleReplies(f, e.a[2])
      [] e.op = "rem"   -> IF Alive(f, e.a[2]) THEN {"ok"} ELSE {"panic"}
      [] e.op = "remp"  -> {"panic"}
      [] e.op = "clone" -> IF Alive(f, e.a[2]) THEN {"ok"} ELSE {"panic"}
      [] e.op = "clonep" -> {"panic"}
      [] e.op = "copy"  -> {"ok"}
      [] e.op = "set"   -> {"ok"}
      [] e.op = "probe" -> {"panic"}

Allowed(e) ==
    LET r == Replies(e)
        i == CASE e.op = "clone" -> e.a[3] [] OTHER -> e.a[1]
    IN  IF r = {"ok"} /\ Needs(e) > 0 THEN WithCap(i, Needs(e), r)
        \* the panicking form of insertion turns every refusal into a panic
        ELSE IF e.op = "ins" /\ e.adopt /\ r # {"ok"} THEN {"panic"} ELSE r

Target(e) == CASE e.op \in {"clone", "clonep"} -> e.a[3]
               [] e.op = "copy" -> e.a[2]
               [] OTHER -> e.a[1]          \* builders, too

Post(e) ==   \* of the target forest, when the reply is as it should be
    LET f == w[e.a[1]] i == Target(e) IN
    CASE e.op = "remp"  -> RemovePanicPost(f, e.a[2], e.a[3])
      [] e.r # "ok"     -> w[i]
      [] e.op = "root"  -> AddRoot(f, e.d)
      [] e.op = "cins"  -> CreateInsertPost(f, e.d, e.a[2], e.a[3])
      [] e.op = "ins"   -> InsertPost(f, e.a[2], e.a[3], e.a[4])
      [] e.op = "det"   -> Cut(f, e.a[2])
      [] e.op = "dets"  -> DetachSinglePost(f, e.a[2])
      [] e.op = "rem"   -> RemovePost(f, e.a[2])
      [] e.op = "clone" -> ClonePost(w[i], f, e.a[2])
      [] e.op = "copy"  -> f
      [] e.op = "set"   -> SetData(f, e.a[2], e.d)
      [] OTHER          -> w[i]

\* What is handed out: data to the hook, node pairs to the mapping callback.
OutOk(e) ==
    LET f == w[e.a[1]] IN
    CASE e.op = "rem" /\ e.r = "ok" /\ e.hooked ->
            e.out = [k \in 1..Len(PostOrder(f, e.a[2])) |-> f.data[PostOrder(f, e.a[2])[k]]]
      [] e.op = "remp" ->
            e.out = [k \in 1..e.a[3] |-> f.data[PostOrder(f, e.a[2])[k]]]
      [] e.op = "clone" /\ e.r = "ok" /\ e.hooked ->
            LET s == PreOrder(f, e.a[2]) n == Size(w[e.a[3]]) IN
            /\ Len(e.pairs) = Len(s)
            /\ SetOf(e.pairs) = {<<s[k], n + k>> : k \in 1..Len(s)}
      [] OTHER -> TRUE

Lost(e) ==  \* ids that may have gone without being handed out
    CASE e.op \in {"cins", "root"} /\ e.r = "panic" -> 1
      [] e.op = "clonep" -> Cardinality(Desc(w[e.a[1]], e.a[2]))  \* the copy may be complete
      [] e.op = "clone" /\ e.r = "panic" -> Needs(e)
      [] OTHER -> 0

OpTags(e) ==
    LET r == Replies(e) dead == r = {"panic"}
        full == r = {"ok"} /\ Allowed(e) # r
    IN (CASE e.op = "root"  -> {"C09"}
          [] e.op = "cins"  -> IF dead THEN {"C09", "C08"} ELSE {"C09"}
          [] e.op = "ins"   -> IF r = {"ok"} THEN {"C02"} \cup (IF e.r # "ok" THEN {"C03"} ELSE {})
                               ELSE IF dead THEN {"C08"}
                               ELSE IF "panic" \in r THEN {"C03", "C08"} ELSE {"C03"}
          [] e.op = "det"   -> IF dead THEN {"C08"} ELSE {"C04"}
          [] e.op = "dets"  -> IF dead THEN {"C08"} ELSE {"C05"}
          [] e.op = "rem"   -> IF dead THEN {"C08"} ELSE {"C06"}
          [] e.op = "remp"  -> {"C07"}
          [] e.op = "clone" -> IF dead THEN {"C08"} ELSE {"C11"}
          [] e.op = "clonep" -> {"C11"}
          [] e.op = "copy"  -> {"C20"}
          [] e.op = "set"   -> {"C10"}
          [] e.op = "probe" -> {"C08"})
       \cup (IF full \/ Meta(t).fill > 0 THEN {"C19"} ELSE {})

\* The trees an operation may touch, in its target forest.
Touched(e) ==
    LET f == w[Target(e)]
        named == CASE e.op = "ins"  -> {e.a[2], e.a[4]}
                   [] e.op = "cins" -> {e.a[3]}
                   [] e.op \in {"det", "dets", "rem", "remp", "set"} -> {e.a[2]}
                   [] e.op \in {"chain", "nest"} -> SetOf(e.xs)
                   [] OTHER -> {}
        roots == {RootOf(f, x) : x \in {y \in named : Alive(f, y)}}
    IN  UNION {Desc(f, x) : x \in roots} \cup {x \in Names(f) : ~Alive(f, x)}

JudgeForest(e, i, f, tags) ==   \* forest i, specified to be f now
    LET o == e.w[i] IN
    IF Len(o.par) # Size(f) THEN tags \cup {"state"}
    ELSE LET D == Differ(f, o) IN
         IF D = {} THEN {}
         ELSE tags \cup {"state"}
              \cup (IF ObsConsistent(o) THEN {} ELSE {"C01"})
              \cup (IF LivenessDiffers(f, o, D) THEN {"C08"} ELSE {})
              \cup (IF DataDiffers(f, o, D) THEN {"C10"} ELSE {})
              \cup (IF e.op = "copy" \/ (i = Target(e) /\ \A x \in D : x > Size(w[i]) \/ x \in Touched(e))
                    THEN {} ELSE {"C20"})

RECURSIVE SumAlive(_, _)
SumAlive(v, i) == IF i > Len(v) THEN 0 ELSE Cardinality(Live(v[i])) + SumAlive(v, i + 1)
RECURSIVE SumLost(_, _)
SumLost(v, i) == IF i > Len(v) THEN 0 ELSE v[i] + SumLost(v, i + 1)

JudgeOp(e, v, ls) ==      \* v: the specified forests afterwards
    LET tags == OpTags(e) IN
    (IF e.r \in Allowed(e) THEN {} ELSE tags \cup {"state"})
    \cup (IF e.odd = <<>> THEN {} ELSE {"C08"})     \* what served a dead node
    \cup (IF e.r \in Allowed(e) /\ ~OutOk(e) THEN tags \cup {"C10"} ELSE {})
    \cup (IF e.r \in Allowed(e) THEN UNION {JudgeForest(e, i, v[i], tags) : i \in 1..Len(v)} ELSE {})
    \cup (IF /\ e.alive >= SumAlive(v, 1) + Len(v) * Meta(t).fill
             /\ e.alive <= SumAlive(v, 1) + Len(v) * Meta(t).fill + SumLost(ls, 1)
          THEN {} ELSE tags \cup {"C10"})
    \cup (IF e.fillok THEN {} ELSE {"C19", "C20"})
    \cup (IF e.gravesok THEN {} ELSE {"C08"})

---------------------------------------------------------------------------
(* Iterator sessions: acts is a sequence of <<what, result...>>             *)

IterTag(k) == CASE k = "dft" -> "C12" [] k = "shallow" -> "C13"
                [] k \in {"bft", "abft"} -> "C14" [] OTHER -> "C15"

\* an act: [a |-> what, k |-> count, res |-> item or <<>>]
IterAct(s, st, a) ==
    CASE a.a = "next" -> LET q == TakeFront(s, st.it, a.k) IN [it |-> q.it, ok |-> st.ok /\ a.res = q.res]
      [] a.a = "back" -> LET q == TakeBack(s, st.it, a.k)  IN [it |-> q.it, ok |-> st.ok /\ a.res = q.res]
      [] a.a = "peek" -> [st EXCEPT !.ok = @ /\ a.res = PeekFront(s, st.it)]
      [] a.a = "peekback" -> [st EXCEPT !.ok = @ /\ a.res = PeekBack(s, st.it)]
      [] a.a = "hint" -> [st EXCEPT !.ok = @ /\ HintSound(st.it, a.res[1], a.res[2])]
      [] OTHER -> [st EXCEPT !.ok = FALSE]          \* "panic"

JudgeIter(e) ==
    LET f == w[e.i] s == ItemsOf(f, e.kind, e.x, e.m) IN
    IF FoldLeft(LAMBDA st, a : IterAct(s, st, a), [it |-> Fresh(s), ok |-> TRUE], e.acts).ok
    THEN {} ELSE {IterTag(e.kind)}

---------------------------------------------------------------------------
(* Builder sessions                                                        *)

ChainStep(b, s) ==
    CASE s.c = "child"   -> ChainChild(b, s.d)
      [] s.c = "sibling" -> ChainSibling(b, s.d)
      [] s.c = "parent"  -> ChainParent(b)
      [] s.c = "tryparent" -> ChainTryParent(b)
      [] s.c = "det"     -> [b |-> [b EXCEPT !.f = Cut(b.f, s.x)], r |-> "ok"]
      [] s.c = "rem"     -> [b |-> [b EXCEPT !.f = RemovePost(b.f, s.x)], r |-> "ok"]

\* A call that needs an id may be refused when ids run out.
NoIdLeft(i, st, s) ==
    /\ s.c \in {"child", "sibling"} /\ s.r = "panic"
    /\ Cap(i) # 0
    /\ Size(st.b.f) + Meta(t).fill + lost[i] + st.lost + 1 > Cap(i) - 1
HasId(i, st, s) ==
    s.c \in {"child", "sibling"} => Cap(i) = 0 \/ Size(st.b.f) + Meta(t).fill + 1 <= Cap(i)

ChainFold(f, e) ==
    FoldLeft(LAMBDA st, s :
                LET q == IF NoIdLeft(e.i, st, s) THEN [b |-> st.b, r |-> "panic"] ELSE ChainStep(st.b, s) IN
                [b |-> q.b,
                 lost |-> st.lost + (IF s.c \in {"child", "sibling"} /\ q.r = "panic" THEN 1 ELSE 0),
                 ok |-> /\ st.ok /\ s.r = q.r /\ s.root = q.b.root /\ s.cur = q.b.cur
                        /\ q.r = "ok" => HasId(e.i, st, s)],
             [b |-> ChainNew(f, e.d), lost |-> 0, ok |-> TRUE], e.steps)

NestStep(n, s) ==
    CASE s.c = "add" -> NestAdd(n, s.d) [] s.c = "open" -> NestOpen(n, s.d) [] s.c = "close" -> NestClose(n)

NestFold(f, e) ==
    FoldLeft(LAMBDA st, s : LET q == NestStep(st.b, s) IN
                [b |-> q, ok |-> st.ok /\ s.root = NestRoot(q)],
             [b |-> NestNew(f, e.d), ok |-> e.start = Size(f) + 1], e.steps)

---------------------------------------------------------------------------
JudgePrint(e) ==
    LET f == w[e.i] IN IF e.lines = PrintLines(f, e.x, e.labels) THEN {} ELSE {"C18"}

(* One node as the mutable proxy and proxies reached through it show it;    *)
(* `odd': a disagreement between views that the harness noticed.            *)
JudgeViews(e) ==
    LET f == w[e.i] x == e.x
        row == <<f.par[x], PrevSib(f, x), NextSib(f, x), FirstKid(f, x), LastKid(f, x), f.data[x]>>
    IN  (IF e.odd = "" /\ e.row = row THEN {} ELSE {"C21"})
        \cup UNION {JudgeForest(e, i, w[i], {"C21"}) : i \in 1..Len(w)}

---------------------------------------------------------------------------
Report(b, e) ==
    IF b = {} THEN TRUE
    ELSE PrintT(ToString(<<"V", b \ {"state"}, Meta(t).name, l, e.e,
                           IF e.e = "op" THEN <<e.op, e.a, e.r, e.v>>
                           ELSE IF e.e \in {"iter"} THEN <<e.kind, e.i, e.x, e.m>>
                           ELSE <<e.i>> >>))

Init == /\ t \in 1..Len(Files)
        /\ l = 2
        /\ w = [i \in 1..Meta(t).nf |-> EmptyForest]
        /\ lost = [i \in 1..Meta(t).nf |-> 0]
        /\ bad = {}

DoOp(e) ==
    LET fits == e.r \in Allowed(e)
        v  == IF fits THEN [w EXCEPT ![Target(e)] = Post(e)] ELSE w
        ls == IF e.op = "copy" THEN [lost EXCEPT ![e.a[2]] = lost[e.a[1]]]
              ELSE [lost EXCEPT ![Target(e)] = @ + Lost(e)]
    IN  /\ w' = v
        /\ lost' = ls
        /\ bad' = JudgeOp(e, v, ls)

DoChain(e) ==
    LET q == ChainFold(w[e.i], e)
        v == [w EXCEPT ![e.i] = q.b.f]
    IN  /\ w' = v
        /\ lost' = [lost EXCEPT ![e.i] = @ + q.lost]
        /\ bad' = (IF q.ok THEN {} ELSE {"C16", "state"})
                  \cup UNION {JudgeForest(e, i, v[i], {"C16"}) : i \in 1..Len(v)}

DoNest(e) ==
    LET q == NestFold(w[e.i], e)
        v == [w EXCEPT ![e.i] = q.b.f]
    IN  /\ w' = v
        /\ UNCHANGED lost
        /\ bad' = (IF q.ok THEN {} ELSE {"C17", "state"})
                  \cup UNION {JudgeForest(e, i, v[i], {"C17"}) : i \in 1..Len(v)}

Next ==
    /\ l <= Len(Traces[t])
    /\ "state" \notin bad
    /\ LET e == Traces[t][l] IN
       /\ CASE e.e = "op"    -> DoOp(e)
            [] e.e = "chain" -> DoChain(e)
            [] e.e = "nest"  -> DoNest(e)
            [] e.e = "iter"  -> bad' = JudgeIter(e) /\ UNCHANGED <<w, lost>>
            [] e.e = "print" -> bad' = JudgePrint(e) /\ UNCHANGED <<w, lost>>
            [] e.e = "views" -> bad' = JudgeViews(e) /\ UNCHANGED <<w, lost>>
            [] e.e = "drop"  -> /\ bad' = (IF e.ok /\ e.alive = 0 THEN {} ELSE {"C10"})
                                /\ UNCHANGED <<w, lost>>
       /\ Report(bad', e)
    /\ l' = l + 1
    /\ UNCHANGED t

Spec == Init /\ [][Next]_vars

Done == PrintT(ToString(<<"E", Meta(t).name, l - 1, Len(Traces[t])>>))
Finished == (l > Len(Traces[t]) \/ "state" \in bad) => Done
\* The specification's forests along the trace satisfy what Forest.tla proves.
Shape == \A i \in 1..Len(w) : \A x \in Names(w[i]) : \A k \in 1..Len(w[i].kids[x]) :
            w[i].par[w[i].kids[x][k]] = x
View == <<t, l>>
=============================================================================
