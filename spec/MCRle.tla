-------------------------------- MODULE MCRle --------------------------------
(* Encoders and decoders as automata, step by step, for every short string   *)
(* over a small alphabet (Mode "bytes"); strings of long runs, for which     *)
(* scripts are generated (Mode "runs").                                      *)
EXTENDS Rle, FiniteSets, TLC, Json

CONSTANTS Mode, Depth, Deep, Emitting

VARIABLES
    x,      \* the input so far
    d,      \* its number of bytes, or of runs
    e8, er, \* encoders: what they hold back, and what they wrote
    d8, dr, \* decoders fed by them
    closed, lab
vars == <<x, d, e8, er, d8, dr, closed, lab>>

Idle == [n |-> 0, b |-> 0, out |-> <<>>]

Init == x = <<>> /\ d = 0 /\ e8 = Idle /\ er = Idle /\ d8 = Fresh /\ dr = Fresh /\ closed = FALSE /\ lab = [k |-> "start"]

\* An RLE8 encoder has to hold back at most Top+2 bytes of a run
Out8(s) == Pieces(<<>>, s.n, s.b)
Enc8(s, b) == IF s.n = 0 THEN [n |-> 1, b |-> b, out |-> <<>>]
              ELSE IF s.b = b /\ s.n < Top + 2 THEN [s EXCEPT !.n = @ + 1, !.out = <<>>]
              ELSE [n |-> 1, b |-> b, out |-> Out8(s)]
\* A recursive one writes a byte for each Top bytes
OutR(s) == IF s.n = 1 THEN << <<1, s.b>> >> ELSE IF s.n = 2 THEN Push(<< <<2, s.b>> >>, 1, 0) ELSE <<>>
EncR(s, b) ==
    IF s.n = 0 THEN [n |-> 1, b |-> b, out |-> << <<1, b>> >>]
    ELSE IF s.b # b THEN [n |-> 1, b |-> b, out |-> Push(IF s.n = 1 THEN <<>> ELSE << <<1, (s.n - 2) % Top>> >>, 1, b)]
    ELSE [n |-> s.n + 1, b |-> b, out |-> IF s.n = 1 THEN << <<1, b>> >> ELSE IF (s.n - 1) % Top = 0 THEN << <<1, Top>> >> ELSE <<>>]
CloseR(s) == IF s.n <= 1 THEN <<>> ELSE << <<1, (s.n - 2) % Top>> >>

FeedAll(kind, s, runs) == FoldLeft(LAMBDA t, r : Feed(kind, t, r[1], r[2]), s, runs)

Byte(b) ==
    /\ Mode = "bytes" /\ ~closed /\ d < Depth
    /\ x' = Push(x, 1, b) /\ d' = d + 1
    /\ e8' = Enc8(e8, b) /\ d8' = FeedAll("8", d8, e8'.out)
    /\ er' = EncR(er, b) /\ dr' = FeedAll("r", dr, er'.out)
    /\ closed' = FALSE
    /\ lab' = [k |-> "byte"]

Close ==
    /\ Mode = "bytes" /\ ~closed
    /\ closed' = TRUE
    /\ e8' = [e8 EXCEPT !.out = IF e8.n = 0 THEN <<>> ELSE Out8(e8)] /\ d8' = FeedAll("8", d8, e8'.out)
    /\ er' = [er EXCEPT !.out = CloseR(er)] /\ dr' = FeedAll("r", dr, er'.out)
    /\ UNCHANGED <<x, d>>
    /\ lab' = [k |-> "close"]

Lengths == {1, 2, 3, Top + 1, Top + 2, Top + 3} \cup
           (IF Deep THEN {4, Top - 1, Top, Top + 4, (2 * Top) + 1, (2 * Top) + 2, (2 * Top) + 3, (2 * Top) + 4, (2 * Top) + 5, (3 * Top) + 6}
            ELSE {(2 * Top) + 2, (2 * Top) + 4})
Bytes == IF Mode = "bytes" THEN 0..Top ELSE {0, 1, Top} \cup (IF Deep THEN {2, Top - 1} ELSE {})

Run(n, b) ==
    /\ Mode = "runs" /\ d < Depth
    /\ IF x = <<>> THEN TRUE ELSE x[Len(x)][2] # b
    /\ x' = Append(x, <<n, b>>) /\ d' = d + 1
    /\ UNCHANGED <<e8, er, d8, dr, closed>>
    /\ lab' = [k |-> "call", c |-> [in |-> x']]

Next == \/ \E b \in Bytes : Byte(b)
        \/ Close
        \/ \E n \in Lengths, b \in Bytes : Run(n, b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------

Kinds == {"8", "r"}

\* What was encoded is what is decoded
Lossless == \A k \in Kinds : LET s == Decode(k, Encode(k, x)) IN Complete(s) /\ s.out = x

\* The automata do just that
Streaming ==
    /\ closed => /\ d8.out = x /\ Complete(d8)
                 /\ dr.out = x /\ Complete(dr)
    /\ PrefixOf(d8.out, x) /\ PrefixOf(Potential(dr), x)

\* RLE8 never needs more than half as much again
Bounded == Mode = "bytes" => \A k \in Kinds : 2 * Total(Encode(k, x)) <= 3 * Total(x)

\* Whatever can be decoded has a canonical form that isn't longer
Canonical == \A k \in Kinds : LET s == Decode(k, x) IN Complete(s) =>
                /\ Total(Encode(k, s.out)) <= Total(x)
                /\ Decode(k, Encode(k, s.out)).out = s.out

\* A truncated encoding is noticed unless it ends after a complete piece, and what was
\* decoded before is right
Truncated == \A k \in Kinds : LET y == Encode(k, x) IN
    \A i \in 1..Len(y) : PrefixOf(Decode(k, SubSeq(y, 1, i)).out, x)

View0 == <<x, closed>>
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> x, t |-> x', l |-> lab']))
=============================================================================
