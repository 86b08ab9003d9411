---------------------------- MODULE PrintWriter ----------------------------
(***************************************************************************)
(* The debug printer as the machine it is: it walks the subtree, and writes *)
(* content fragment by fragment through an indenting writer that knows only *)
(* the branch levels above and where in the line it is.  Output is a        *)
(* sequence of finished lines and the line being written.                   *)
(*                                                                         *)
(* MCPrint checks that for every small tree and contents the finished       *)
(* output is PrintLines of module Printing, up to trailing whitespace.      *)
(***************************************************************************)
EXTENDS Printing, TLC

\* What a content of kind k of node y is made of: fragments, NL a line break.
NL == "\n"
Name(y) == ToString(y)
Fragments(k, y) ==
    CASE k = 0 -> <<"n" \o Name(y)>>
      [] k = 1 -> <<>>
      [] k = 2 -> <<"n" \o Name(y), NL, "m" \o Name(y)>>
      [] k = 3 -> <<NL>>
      [] k = 4 -> <<"n" \o Name(y), NL>>
      [] k = 5 -> <<NL, "n" \o Name(y)>>
      [] k = 6 -> <<"n" \o Name(y), NL, NL, "m" \o Name(y)>>
      [] k = 7 -> <<"n" \o Name(y), NL, NL>>
      [] k = 8 -> <<NL, NL, "  n" \o Name(y), NL>>
      \* @u, @t, @l stand for characters beyond ASCII, odd white space within a
      \* line and a long text, which the replay puts in their place.
      [] k = 9 -> <<"n" \o Name(y) \o "@u", NL, "@tm" \o Name(y) \o "@u", NL, "@u">>
      [] k = 10 -> <<"|-- n" \o Name(y), NL, "`-- m", NL, "|", NL, "    k">>
      [] k = 11 -> <<"@ln" \o Name(y), NL, "m@tm@l", NL>>
      \* Many lines; @h stands for a very long text.
      [] k = 12 -> [i \in 1..600 |-> IF i % 2 = 0 THEN NL ELSE IF i % 7 = 0 THEN "" ELSE "n" \o Name(y)]
      [] k = 13 -> <<"@hn" \o Name(y), NL, "m@h">>
\* The lines of that content: a line break at its end starts no new line.
RECURSIVE Cont(_, _, _)
Cont(fr, done, cur) ==
    IF fr = <<>> THEN (IF cur = "" THEN done ELSE Append(done, cur))
    ELSE IF fr[1] = NL THEN Cont(Tail(fr), Append(done, cur), "")
    ELSE Cont(Tail(fr), done, cur \o fr[1])
ContentLines(k, y) == Cont(Fragments(k, y), <<>>, "")

---------------------------------------------------------------------------
(* The writer: w.at in {"before", "partial", "content"}, w.ind the levels   *)
(* <<is last, is first line>>, w.done the finished lines, w.cur the rest.   *)

Blank(p)   == p = <<TRUE, FALSE>>
Leading(p) == CASE p = <<FALSE, TRUE>> -> "|--" [] p = <<FALSE, FALSE>> -> "|"
                [] p = <<TRUE, TRUE>> -> "`--"  [] OTHER -> ""
Spaces(p)  == CASE p[2] -> " " [] p = <<FALSE, FALSE>> -> "   " [] OTHER -> "    "

RECURSIVE Solid(_)      \* the levels without the blank ones at the end
Solid(ind) == IF ind = <<>> THEN <<>>
              ELSE IF Blank(ind[Len(ind)]) THEN Solid(SubSeq(ind, 1, Len(ind) - 1)) ELSE ind

WriterStart == [at |-> "partial", ind |-> <<>>, done |-> <<>>, cur |-> ""]

IndentPartial(w) ==
    LET s == Solid(w.ind) n == Len(s) IN
    [w EXCEPT !.at = "partial",
              !.cur = @ \o (IF n = 0 THEN "" ELSE Pieces(SubSeq(s, 1, n - 1)) \o Leading(s[n]))]
IndentRest(w) ==
    LET s == Solid(w.ind) n == Len(s) IN
    w.cur \o (IF n = 0 THEN "" ELSE Spaces(s[n])) \o Pieces(SubSeq(w.ind, n + 1, Len(w.ind)))

FirstLineOver(ind) == IF ind = <<>> THEN ind ELSE [ind EXCEPT ![Len(ind)] = <<@[1], FALSE>>]

WriteFragment(w, s) ==
    LET a == IF w.at = "before" THEN IndentPartial(w) ELSE w
        c == IF a.at = "partial" THEN IndentRest(a) ELSE a.cur
    IN  IF s = NL
        THEN [a EXCEPT !.at = "before", !.ind = FirstLineOver(@), !.done = Append(@, c), !.cur = ""]
        ELSE [a EXCEPT !.at = "content", !.cur = c \o s]

OpenItem(w, lastSibling) ==
    LET a == IF w.at = "before" THEN w ELSE [w EXCEPT !.done = Append(@, w.cur), !.cur = ""]
    IN  IndentPartial([a EXCEPT !.ind = Append(FirstLineOver(@), <<lastSibling, TRUE>>)])
CloseItem(w) == [w EXCEPT !.ind = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]

---------------------------------------------------------------------------
(* What the walk of the subtree of x tells the writer, K the content kinds. *)
Script(f, x, K) ==
    LET one(e) ==
            IF e < 0 THEN <<<<"close">>>>
            ELSE (IF e = x THEN <<>> ELSE <<<<"open", NextSib(f, e) = 0>>>>)
                 \o [k \in 1..Len(Fragments(K[e], e)) |-> <<"write", Fragments(K[e], e)[k]>>]
        d == Dft(f, x)
    IN  FoldLeft(LAMBDA acc, e : acc \o one(e), <<>>, d)

Perform(w, s) == CASE s[1] = "open"  -> OpenItem(w, s[2])
                   [] s[1] = "write" -> WriteFragment(w, s[2])
                   [] s[1] = "close" -> CloseItem(w)

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s = "" THEN s
              ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* As lines, without trailing whitespace; an empty output is one empty line.
Output(w) ==
    LET ls == w.done \o (IF w.cur = "" THEN <<>> ELSE <<w.cur>>)
    IN  IF ls = <<>> THEN <<"">> ELSE [k \in 1..Len(ls) |-> TrimEnd(ls[k])]
=============================================================================
