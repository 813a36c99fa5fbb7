-------------------------------- MODULE UnixV6 --------------------------------
(* Inodes of Unix, sixth edition, and their modes. C29.                      *)
EXTENDS Integers, Sequences, FiniteSets

Pow2(n) == 2 ^ n
Bit(m, n) == (m \div Pow2(n)) % 2 = 1

\* A mode word has 16 bits: allocated, type (2), large, setuid, setgid, unused, permissions (9).
\* Plain files have type 0.
TypeOf(m) == (m \div 8192) % 4
Kind(m) == CASE TypeOf(m) = 0 -> "file" [] TypeOf(m) = 1 -> "char" [] TypeOf(m) = 2 -> "dir" [] TypeOf(m) = 3 -> "block"

\* A portable mode: type bits, permissions, and other bits, all by name. Characters
\* devices may carry the bit for devices in general, too.
Types(m) == CASE Kind(m) = "file" -> {{}}
              [] Kind(m) = "dir" -> {{"dir"}}
              [] Kind(m) = "block" -> {{"device"}}
              [] Kind(m) = "char" -> {{"chardevice"}, {"device", "chardevice"}}
Perm(m) == m % 512
Special(m) == (IF Bit(m, 11) THEN {"setuid"} ELSE {}) \cup (IF Bit(m, 10) THEN {"setgid"} ELSE {})

\* What survives a conversion and back: type, setuid, setgid, permissions
Essence(m) == (TypeOf(m) * 8192) + (((m \div 1024) % 4) * 1024) + Perm(m)

\* The types that there are words for, and the types bits of such words
AllTypes == {"dir", "symlink", "pipe", "socket", "device", "chardevice", "irregular"}
Supported(types) == types \in {{}, {"dir"}, {"device"}, {"chardevice"}, {"device", "chardevice"}}
\* Go's own packages set both bits for character devices; whether that's understood is left open
Optional(types) == types = {"device", "chardevice"}
TypeFor(types) == CASE types = {} -> 0 [] types = {"dir"} -> 2 [] types = {"device"} -> 3 [] "chardevice" \in types -> 1

\* A word for a portable mode: allocated, and the rest as it is
Faithful(w, types, special, perm) ==
    /\ Bit(w, 15) /\ TypeOf(w) = TypeFor(types) /\ Special(w) = special /\ Perm(w) = perm
    /\ ~Bit(w, 12) /\ ~Bit(w, 9)

\* Sizes have a high byte, then a word with the low byte first
Size(bytes) == (bytes[1] * 65536) + (bytes[3] * 256) + bytes[2]
Blocks(size) == (size + 511) \div 512
\* What the bits of a mode word are called
NamedBits ==
    [FlagIsAllocated |-> {15}, FileTypeMask |-> {14, 13}, FileTypeBlockDevice |-> {14, 13}, FileTypeDirectory |-> {14}, FileTypeCharDevice |-> {13},
     FlagIsLargeFile |-> {12}, FileTypePlainFile |-> {}, FlagSetUID |-> {11}, FlagSetGID |-> {10},
     OwnerPermMask |-> {8, 7, 6}, FlagOwnerR |-> {8}, FlagOwnerW |-> {7}, FlagOwnerX |-> {6},
     GroupPermMask |-> {5, 4, 3}, FlagGroupR |-> {5}, FlagGroupW |-> {4}, FlagGroupX |-> {3},
     OtherPermMask |-> {2, 1, 0}, FlagOtherR |-> {2}, FlagOtherW |-> {1}, FlagOtherX |-> {0}]
BitsOf(w) == {n \in 0..15 : Bit(w, n)}
=============================================================================
