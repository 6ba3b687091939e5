-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* Event streams symbol by symbol.  A stream is a sequence of symbols:     *)
(*   "D" data: {"v":i} (i its position)   "B" data: [DONE]   "O" data      *)
(*   "N" :n     "C" a carriage return     "L" a line feed                  *)
(* It arrives in chunks that end anywhere.  What counts is the event       *)
(* before the last: the number it carries, or 0 if it carries none.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

End(x) == x \in {"C", "L"}

(* a line, without its end: a sequence of <<symbol, position>>             *)
\* what a line adds to the data of its event: nothing, or one piece
Piece(l) == IF l = <<>> THEN <<>>
            ELSE CASE l[1][1] = "D" -> <<IF Len(l) = 1 THEN l[1][2] ELSE 0>>
                   [] l[1][1] = "B" -> <<0>>
                   [] l[1][1] = "O" -> IF Len(l) > 1 /\ l[2][1] = "N" THEN <<0>> ELSE <<>>
                   [] OTHER -> <<>>
\* data: pieces of the event so far; evs: what the events carry
Line(A, l) == IF l = <<>>
              THEN IF A.data = <<>> THEN A ELSE [data |-> <<>>, evs |-> Append(A.evs, IF Len(A.data) = 1 THEN A.data[1] ELSE 0)]
              ELSE [A EXCEPT !.data = @ \o Piece(l)]
A0 == [data |-> <<>>, evs |-> <<>>]

(***************************************************************************)
(* The stream as a whole                                                   *)
(***************************************************************************)
RECURSIVE Lines(_, _, _)
Lines(s, i, l) ==
    IF i > Len(s) THEN <<>>
    ELSE CASE s[i] = "L" -> <<l>> \o Lines(s, i + 1, <<>>)
           [] s[i] = "C" -> <<l>> \o Lines(s, IF i < Len(s) /\ s[i + 1] = "L" THEN i + 2 ELSE i + 1, <<>>)
           [] OTHER -> Lines(s, i + 1, Append(l, <<s[i], i>>))
RECURSIVE Fold(_, _)
Fold(A, ls) == IF ls = <<>> THEN A ELSE Fold(Line(A, Head(ls)), Tail(ls))
Carried(A) == IF Len(A.evs) < 2 THEN 0 ELSE A.evs[Len(A.evs) - 1]
Whole(s) == Carried(Fold(A0, Lines(s, 1, <<>>)))

(***************************************************************************)
(* The stream as it arrives: lines are taken from what is held, but a      *)
(* carriage return at its end waits for what follows.                      *)
(***************************************************************************)
M0 == [buf |-> <<>>, a |-> A0]
FirstEnd(b) == IF \E i \in DOMAIN b : End(b[i][1]) THEN CHOOSE i \in DOMAIN b : End(b[i][1]) /\ \A j \in 1..i - 1 : ~End(b[j][1]) ELSE 0
RECURSIVE Take(_, _)
Take(M, eos) ==
    LET i == FirstEnd(M.buf) IN
    IF i = 0 THEN M
    ELSE IF M.buf[i][1] = "C" /\ i = Len(M.buf) /\ ~eos THEN M
    ELSE LET j == IF M.buf[i][1] = "C" /\ i < Len(M.buf) /\ M.buf[i + 1][1] = "L" THEN i + 1 ELSE i IN
         Take([buf |-> SubSeq(M.buf, j + 1, Len(M.buf)), a |-> Line(M.a, SubSeq(M.buf, 1, i - 1))], eos)
Chunk(M, s, from, to, eos) == Take([M EXCEPT !.buf = @ \o [k \in 1..to - from |-> <<s[from + k], from + k>>]], eos)
=============================================================================
