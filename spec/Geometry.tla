------------------------------- MODULE Geometry -------------------------------
(* Disk geometries: a table of them, and the sizes of their images. C30.     *)
EXTENDS BigNat, FiniteSets

\* Numbers are sequences of digits in base 65536. Products.
RECURSIVE Times(_, _)
Times(a, b) == IF b = <<>> THEN <<>>
               ELSE LET low == b[1] % 256
                        high == b[1] \div 256
                        part == Add(Mul(a, low), Mul(Mul(a, high), 256))
                        rest == Times(a, Tail(b))
                    IN  Add(part, IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

RECURSIVE Product(_)
Product(factors) == IF factors = <<>> THEN <<1>> ELSE Times(factors[1], Product(Tail(factors)))

\* The fewest bytes that hold so many bits
Holds(bytes, bits) == LessEq(bits, Mul(bytes, 8))
Smallest(bytes, bits) == Holds(bytes, bits) /\ (bytes # <<>> => ~Holds(Sub(bytes, <<1>>), bits))
ImageSize(bits) == Div(Add(bits, <<7>>), 8)

\* The row of a table with a slug, if any
Rows(table, slug) == {i \in 1..Len(table) : table[i].slug = slug}
=============================================================================
