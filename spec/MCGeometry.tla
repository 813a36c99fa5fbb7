------------------------------ MODULE MCGeometry ------------------------------
(* Products and sizes of small and of large numbers.                         *)
EXTENDS Geometry, TLC

VARIABLES a, b
vars == <<a, b>>

Few == {0, 1, 2, 7, 8, 9, 255, 256, 257, 32767, 32768, 65535}
Bigs == {Trim(<<x, y, z>>) : x \in Few, y \in {0, 1, 255, 65535}, z \in {0, 1, 32768}}
Init == a \in Bigs /\ b \in Bigs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Commutes == Times(a, b) = Times(b, a) /\ Times(a, <<1>>) = a
\* (a + 1) * b = a * b + b
Distributes == Times(Add(a, <<1>>), b) = Add(Times(a, b), b)
\* TLC's own numbers
Agrees == Len(a) < 2 /\ Len(b) < 2 /\ (b = <<>> \/ b[1] < 32768) => Times(a, b) = Big(Small(a) * Small(b))
Sized == Smallest(ImageSize(a), a) /\ (b # ImageSize(a) => ~Smallest(b, a))
=============================================================================
