------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: sequences of digits in base *)
(* 65536, the least significant one first, without zeros at the end.         *)
EXTENDS Naturals, Sequences

Base == 65536

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Big(_)
\* From an integer
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)

\* To an integer, if it's small enough
RECURSIVE Small(_)
Small(a) == IF a = <<>> THEN 0 ELSE a[1] + (Base * Small(Tail(a)))
Fits(a) == Len(a) < 2 \/ (Len(a) = 2 /\ a[2] < 32768)

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Longer(a, b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET s == Digit(a, i) + Digit(b, i) + carry
         IN  <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
Add(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i = 0 THEN FALSE
    ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) < Digit(b, i)
    ELSE LessFrom(a, b, i - 1)
Less(a, b) == LessFrom(a, b, Longer(a, b))
LessEq(a, b) == ~Less(b, a)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
    IF i > Len(a) THEN <<>>
    ELSE LET d == Digit(a, i) - Digit(b, i) - borrow
         IN  <<IF d < 0 THEN d + Base ELSE d>> \o SubFrom(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
\* a - b, for b <= a
Sub(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, k, i, carry) ==
    IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET p == (a[i] * k) + carry
         IN  <<p % Base>> \o MulFrom(a, k, i + 1, p \div Base)
\* Product with an integer of at most 15 bits
Mul(a, k) == IF k = 0 THEN <<>> ELSE MulFrom(a, k, 1, 0)

RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, k, i, rest) ==
    IF i = 0 THEN <<>>
    ELSE LET d == (rest * Base) + a[i]
         IN  DivFrom(a, k, i - 1, d % k) \o <<d \div k>>
\* Quotient by an integer of at most 15 bits
Div(a, k) == Trim(DivFrom(a, k, Len(a), 0))
Rem(a, k) == Small(Sub(a, Mul(Div(a, k), k)))
=============================================================================
