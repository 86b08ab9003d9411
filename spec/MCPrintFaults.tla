--------------------------- MODULE MCPrintFaults ---------------------------
(***************************************************************************)
(* Debug printing with faults: the content of a node reports an error after *)
(* some of its fragments, or the output stops taking text in the middle of  *)
(* a write.  The printer then reports an error, and what has come out is a  *)
(* beginning of what would have been printed; without fault it reports      *)
(* success and all of it has come out.                                      *)
(***************************************************************************)
EXTENDS PrintWriter, Shapes, TLC

CONSTANTS MaxN, Kinds, EmitFaults

VARIABLES f, K, x,      \* tree, contents, start node
          fault,        \* <<"none">>, <<"content", y, j>>: y's content fails after j fragments,
                        \* <<"sink", k>>: the output takes k characters
          pos, wr,      \* as in MCPrint
          reply         \* "", "ok", "err"
vars == <<f, K, x, fault, pos, wr, reply>>

RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN "" ELSE ls[1] \o NL \o Joined(Tail(ls))
\* All the text that has come out.
Text(w) == Joined(w.done) \o w.cur

\* The fragments of all contents, as steps; faults of a content are steps too.
FaultyScript ==
    LET one(e) ==
            IF e < 0 THEN <<<<"close">>>>
            ELSE LET fr == Fragments(K[e], e)
                     bad == fault[1] = "content" /\ fault[2] = e
                     n == IF bad THEN fault[3] ELSE Len(fr)
                 IN  (IF e = x THEN <<>> ELSE <<<<"open", NextSib(f, e) = 0>>>>)
                     \o [k \in 1..n |-> <<"write", fr[k]>>]
                     \o (IF bad THEN <<<<"fail">>>> ELSE <<>>)
    IN  FoldLeft(LAMBDA acc, e : acc \o one(e), <<>>, Dft(f, x))
RECURSIVE Run(_, _)
Run(w, s) == IF s = <<>> THEN w ELSE Run(Perform(w, s[1]), Tail(s))
Whole == Run(WriterStart, Script(f, x, K))
L == [y \in Names(f) |-> ContentLines(K[y], y)]

Init == /\ \E n \in 1..MaxN : \E p \in Shapes(n) : f = FromPar(p) /\ K \in [1..n -> Kinds]
        /\ x \in Names(f)
        /\ \/ fault = <<"none">>
           \/ \E y \in Desc(f, x) \cup {x} : \E j \in 0..Len(Fragments(K[y], y)) : fault = <<"content", y, j>>
           \/ \E k \in 0..Len(Text(Whole)) - 1 : fault = <<"sink", k>>
        /\ pos = 0 /\ wr = WriterStart /\ reply = ""

Step(s) ==
    IF s[1] = "fail" THEN reply' = "err" /\ UNCHANGED <<wr, pos>>
    ELSE LET w == Perform(wr, s) IN
         IF fault[1] = "sink" /\ Len(Text(w)) > fault[2]
         THEN \* some of this step's text still goes through
              /\ wr' = [done |-> <<>>, cur |-> SubSeq(Text(w), 1, fault[2])]
              /\ reply' = "err" /\ UNCHANGED pos
         ELSE wr' = w /\ pos' = pos + 1 /\ UNCHANGED reply
Next == /\ reply = ""
        /\ IF pos = Len(FaultyScript) THEN reply' = "ok" /\ UNCHANGED <<wr, pos>>
           ELSE Step(FaultyScript[pos + 1])
        /\ UNCHANGED <<f, K, x, fault>>
Spec == Init /\ [][Next]_vars

\* What has come out is always a beginning of the whole.
Begins == LET t == Text(wr) IN Len(t) <= Len(Text(Whole)) /\ SubSeq(Text(Whole), 1, Len(t)) = t
\* Reported if and only if there was a fault.
Reported == /\ reply = "ok"  => fault = <<"none">> /\ Output(wr) = PrintLines(f, x, L)
            /\ reply = "err" => fault # <<"none">>
\* Text that came out is never taken back or changed.
OnlyGrows == [][LET t == Text(wr) IN SubSeq(Text(wr'), 1, Len(t)) = t]_vars

Emit == (EmitFaults /\ pos = 0 /\ reply = "" /\ fault[1] # "sink") =>
    PrintT(ToString(<<"F", f.par, f.kids, [y \in Names(f) |-> K[y]], x, fault,
                      IF fault[1] = "none" THEN "ok" ELSE "err", PrintLines(f, x, L)>>))
=============================================================================
