--------------------------------- MODULE Rle ---------------------------------
(* Run length encodings. Byte strings are lists of runs <<how many, byte>>   *)
(* without empty runs in which neighbours have different bytes.              *)
(*                                                                           *)
(*   RLE8 ("8"): maximal runs are cut into pieces of at most Top+2; one of   *)
(*     two or more is the byte twice and how many follow.                    *)
(*   RRLE ("r"): a run of two or more is the byte twice and how many follow, *)
(*     in base Top: as many Top bytes as needed, and the rest.               *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT Top    \* 255; models use smaller values

Push(runs, n, b) ==
    IF n = 0 THEN runs
    ELSE IF runs # <<>> /\ runs[Len(runs)][2] = b THEN [runs EXCEPT ![Len(runs)] = <<@[1] + n, b>>]
    ELSE Append(runs, <<n, b>>)

Total(runs) == FoldLeft(LAMBDA s, r : s + r[1], 0, runs)

PrefixOf(a, b) ==
    IF a = <<>> THEN TRUE
    ELSE LET k == Len(a)
         IN /\ k <= Len(b)
           /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
           /\ a[k][2] = b[k][2] /\ a[k][1] <= b[k][1]

-----------------------------------------------------------------------------
(* Encoding                                                                  *)

RECURSIVE Pieces(_, _, _)
Pieces(out, n, b) ==
    IF n <= 1 THEN Push(out, n, b)
    ELSE LET k == IF n > Top + 2 THEN Top + 2 ELSE n
         IN  Pieces(Push(Push(out, 2, b), 1, k - 2), n - k, b)

Recursive(out, n, b) ==
    IF n = 1 THEN Push(out, 1, b)
    ELSE Push(Push(Push(out, 2, b), (n - 2) \div Top, Top), 1, (n - 2) % Top)

Encode(kind, runs) ==
    FoldLeft(LAMBDA out, r : IF kind = "8" THEN Pieces(out, r[1], r[2]) ELSE Recursive(out, r[1], r[2]), <<>>, runs)

-----------------------------------------------------------------------------
(* Decoding, by an automaton: it has seen `last` (-1: nothing) and expects   *)
(* either any byte or (part of) a length.                                    *)

Fresh == [st |-> "byte", last |-> -1, len |-> 0, out |-> <<>>]

RECURSIVE Feed(_, _, _, _)
\* The automaton gets n times b
Feed(kind, s, n, b) ==
    IF n = 0 THEN s
    ELSE IF s.st = "byte" THEN
         IF n >= 3 /\ b # s.last /\ (kind = "8" \/ b # Top)    \* each three bytes the same
         THEN Feed(kind, [s EXCEPT !.last = -1, !.out = Push(@, (n \div 3) * (b + 2), b)], n % 3, b)
         ELSE IF b = s.last THEN Feed(kind, [s EXCEPT !.st = "length", !.len = 0], n - 1, b)
         ELSE Feed(kind, [s EXCEPT !.last = b, !.out = Push(@, 1, b)], n - 1, b)
    ELSE IF kind = "r" /\ b = Top THEN [s EXCEPT !.len = @ + (n * Top)]
    ELSE Feed(kind, [s EXCEPT !.st = "byte", !.last = -1, !.len = 0, !.out = Push(@, s.len + b + 1, s.last)], n - 1, b)

Decode(kind, runs) == FoldLeft(LAMBDA s, r : Feed(kind, s, r[1], r[2]), Fresh, runs)

\* Whether the input may end here
Complete(s) == s.st = "byte"

\* All that may have been written
Potential(s) == IF s.st = "length" THEN Push(s.out, s.len + 1, s.last) ELSE s.out
=============================================================================
