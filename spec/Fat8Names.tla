----------------------------- MODULE Fat8Names -----------------------------
(* C19: FAT8 file names. Names are sequences of byte values.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

DOT == 46
SPACE == 32

VARIABLE taken \* what every converted name (the nine bytes) stands for

Upper1(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(name) == [i \in 1..Len(name) |-> Upper1(name[i])]

RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] = SPACE THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Dots(name) == {i \in 1..Len(name) : name[i] = DOT}
FirstDot(name) == CHOOSE i \in Dots(name) : \A j \in Dots(name) : i <= j

Stem(name) == IF Dots(name) = {} THEN name ELSE SubSeq(name, 1, FirstDot(name) - 1)
Ext(name) == IF Dots(name) = {} THEN <<>> ELSE SubSeq(name, FirstDot(name) + 1, Len(name))

Ascii(name) == \A i \in 1..Len(name) : name[i] < 128

\* Names that must be refused, and names that must be accepted. For others (with
\* an empty stem, with more than one period, not in ASCII) either is fine.
Refused(name) == name = <<>> \/ (Ascii(name) /\ (Len(Stem(name)) > 6 \/ (Cardinality(Dots(name)) < 2 /\ Len(Ext(name)) > 3)))
Plain(name) == /\ Ascii(name) /\ Cardinality(Dots(name)) <= 1
               /\ Len(Stem(name)) \in 1..6 /\ Len(Ext(name)) <= 3
Accepted(name) == Plain(name) /\ RTrim(Stem(name)) # <<>>

Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> SPACE]

\* A name that ends with its period keeps the period in the extension
Field2(name) == IF Dots(name) # {} /\ Ext(name) = <<>> THEN <<DOT>> ELSE Ext(name)
Converted(name) == Pad(Upper(Stem(name)), 6) \o Pad(Upper(Field2(name)), 3)

\* Names are the same if they differ by case, or by spaces at the end of either part
Same(name) == LET stem == RTrim(Upper(Stem(name)))
                  ext == RTrim(Upper(Ext(name)))
              IN  IF Dots(name) = {} \/ (ext = <<>> /\ Ext(name) # <<>>) THEN stem ELSE stem \o <<DOT>> \o ext

\* The name converting the nine bytes back gives
Back(raw) == LET stem == RTrim(SubSeq(raw, 1, 6))
                 ext == RTrim(SubSeq(raw, 7, 9))
             IN  IF ext = <<>> THEN stem ELSE IF ext = <<DOT>> THEN stem \o ext ELSE stem \o <<DOT>> \o ext

Init == taken = <<>>

Known(raw) == raw \in DOMAIN taken

\* Converting a name succeeded, with the given bytes, which convert back to `back`.
Convert(name, raw, back) ==
    /\ ~Refused(name)
    /\ Len(raw) = 9
    /\ Plain(name) => raw = Converted(name)
    /\ back = Same(name)
    /\ Known(raw) => taken[raw] = Same(name)
    /\ taken' = IF Known(raw) THEN taken ELSE [r \in DOMAIN taken \cup {raw} |-> IF r = raw THEN Same(name) ELSE taken[r]]

Refuse(name) == ~Accepted(name) /\ UNCHANGED taken
=============================================================================
