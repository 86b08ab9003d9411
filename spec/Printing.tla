------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* The debug printer: the lines printed for the subtree of x, when L[y] is  *)
(* the sequence of lines of the content of y (an empty content counts as    *)
(* one empty line).  Trailing whitespace is left out of every line.         *)
(***************************************************************************)
EXTENDS ForestOps

\* A branch piece: <<is the last sibling, is the first line of its node>>.
Piece(p) == CASE p = <<FALSE, TRUE>>  -> "|-- "
              [] p = <<FALSE, FALSE>> -> "|   "
              [] p = <<TRUE, TRUE>>   -> "`-- "
              [] p = <<TRUE, FALSE>>  -> "    "
PieceTrimmed(p) == CASE p = <<FALSE, TRUE>>  -> "|--"
                     [] p = <<FALSE, FALSE>> -> "|"
                     [] p = <<TRUE, TRUE>>   -> "`--"

RECURSIVE Pieces(_)
Pieces(ps) == IF ps = <<>> THEN "" ELSE Piece(ps[1]) \o Pieces(Tail(ps))

RECURSIVE PiecesTrimmed(_)     \* without trailing whitespace
PiecesTrimmed(ps) ==
    IF ps = <<>> THEN ""
    ELSE LET n == Len(ps) IN
         IF ps[n] = <<TRUE, FALSE>> THEN PiecesTrimmed(SubSeq(ps, 1, n - 1))
         ELSE Pieces(SubSeq(ps, 1, n - 1)) \o PieceTrimmed(ps[n])

Line(ps, text) == IF text = "" THEN PiecesTrimmed(ps) ELSE Pieces(ps) \o text

\* `above': for every node from below the start node to y, whether it is a last sibling.
RECURSIVE LinesOf(_, _, _, _)
LinesOf(f, y, above, L) ==
    LET n     == Len(above)
        text  == IF L[y] = <<>> THEN <<"">> ELSE L[y]
        first == [k \in 1..n |-> <<above[k], k = n>>]
        later == [k \in 1..n |-> <<above[k], FALSE>>]
        own   == [k \in 1..Len(text) |-> Line(IF k = 1 THEN first ELSE later, text[k])]
        c     == f.kids[y]
    IN  own \o FoldLeft(LAMBDA acc, k : acc \o LinesOf(f, c[k], Append(above, k = Len(c)), L),
                        <<>>, [k \in 1..Len(c) |-> k])

PrintLinesByPieces(f, x, L) == LinesOf(f, x, <<>>, L)

(* The same with the indentation carried down as a string, which is cheaper  *)
(* (MCPrint checks that it is the same): `ind' the indentation of what is    *)
(* below y, `tri' without trailing whitespace; `lead', `leadtri' the         *)
(* beginning of y's first line.                                              *)
RECURSIVE Lines(_, _, _, _, _, _, _)
Lines(f, y, lead, leadtri, ind, tri, L) ==
    LET text == IF L[y] = <<>> THEN <<"">> ELSE L[y]
        own  == [k \in 1..Len(text) |->
                   IF text[k] = "" THEN IF k = 1 THEN leadtri ELSE tri
                   ELSE (IF k = 1 THEN lead ELSE ind) \o text[k]]
        c    == f.kids[y]
    IN  own \o FoldLeft(LAMBDA acc, k :
                          acc \o IF k < Len(c)
                                 THEN Lines(f, c[k], ind \o "|-- ", ind \o "|--", ind \o "|   ", ind \o "|", L)
                                 ELSE Lines(f, c[k], ind \o "`-- ", ind \o "`--", ind \o "    ", tri, L),
                        <<>>, [k \in 1..Len(c) |-> k])

PrintLines(f, x, L) == Lines(f, x, "", "", "", "", L)
=============================================================================
