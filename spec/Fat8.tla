-------------------------------- MODULE Fat8 --------------------------------
(* FAT8 volumes (Xerox BASIC-80 floppies): formatting, mounting, flushing,   *)
(* and sector and cluster access. C16, C17, C18.                             *)
(*                                                                           *)
(* A sector's content is a run-length list <<count, byte>>, ... of its 128   *)
(* bytes. Sectors that aren't in `img` only have null bytes.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
    img,      \* content of the image file: sector -> content, sparse
    size,     \* size of the image file in bytes
    file,     \* "rw", "ro" or "closed": what the driver may do with the file
    mounted,
    geo,      \* number of sectors of the volume the driver knows about, 0 if unknown
    table,    \* the allocation table when the volume was mounted, as sectors
    touched,  \* something else may have written to the tables since then
    stat      \* what the driver must report about the volume

f8vars == <<img, size, file, mounted, geo, table, touched, stat>>

-----------------------------------------------------------------------------
(* Geometry                                                                  *)

Supported == {640, 1898, 2002}

Tracks(n) == IF n = 640 THEN 40 ELSE 73
TrueTracks(n) == CASE n = 640 -> 40 [] n = 1898 -> 73 [] n = 2002 -> 77
TrackLen(n) == IF n = 640 THEN 16 ELSE 26
DirTrack(n) == IF n = 640 THEN 18 ELSE 35 \* counted from 1
Clusters(n) == 2 * Tracks(n)
ClusterLen(n) == TrackLen(n) \div 2
FatLen(n) == (Clusters(n) + 127) \div 128

DirStart(n) == (DirTrack(n) - 1) * TrackLen(n)
DirEnd(n) == DirStart(n) + TrackLen(n) - 1
FatStart(n) == DirStart(n) + TrackLen(n) - (3 * FatLen(n))
InfoSector(n) == FatStart(n) - 1
Dirents(n) == (InfoSector(n) - DirStart(n)) * 8

FatSectors(n, copy) == (FatStart(n) + ((copy - 1) * FatLen(n)))..(FatStart(n) + (copy * FatLen(n)) - 1)
AllFats(n) == FatStart(n)..DirEnd(n)

\* Sectors of a cluster
ClusterSectors(n, c) == ((c - 1) * ClusterLen(n))..((c * ClusterLen(n)) - 1)
Valid(n, c) == c >= 1 /\ c <= Clusters(n)
Reserved(n) == {c \in 1..Clusters(n) : ClusterSectors(n, c) \cap (DirStart(n)..DirEnd(n)) # {}}

Disjoint == \A n \in Supported :
    /\ \A c, d \in 1..Clusters(n) : c # d => ClusterSectors(n, c) \cap ClusterSectors(n, d) = {}
    /\ \A c \in 1..Clusters(n) : ClusterSectors(n, c) \subseteq 0..(n - 1)
    /\ UNION {ClusterSectors(n, c) : c \in Reserved(n)} = DirStart(n)..DirEnd(n)
    /\ Cardinality(Reserved(n)) = 2
    /\ TrueTracks(n) * TrackLen(n) = n
    /\ AllFats(n) = FatSectors(n, 1) \cup FatSectors(n, 2) \cup FatSectors(n, 3)
    /\ AllFats(n) \cap (DirStart(n)..InfoSector(n)) = {}

Geometry(n) == [tracks |-> Tracks(n), true |-> TrueTracks(n), clusters |-> Clusters(n), spt |-> TrackLen(n),
                spf |-> FatLen(n), spc |-> ClusterLen(n), bpc |-> ClusterLen(n) * 128, dt |-> DirTrack(n),
                dir |-> DirStart(n), info |-> InfoSector(n), fats |-> FatStart(n)]

-----------------------------------------------------------------------------
(* Contents                                                                  *)

Fill(b) == << <<128, b>> >>
Blank == Fill(0)
At(m, s) == IF s \in DOMAIN m THEN m[s] ELSE Blank

\* Sectors that aren't the same in two images
Differ(m1, m2) == {s \in DOMAIN m1 \cup DOMAIN m2 : At(m1, s) # At(m2, s)}

\* The image with these sectors written, from the given one
Written(m, start, data) ==
    IF data = <<>> THEN m
    ELSE LET new == start..(start + Len(data) - 1)
         IN  [s \in DOMAIN m \cup new |-> IF s \in new THEN data[s - start + 1] ELSE m[s]]
Slice(m, start, count) == [i \in 1..count |-> At(m, start + i - 1)]

\* An image cut at (or extended to) this many sectors
Cut(m, n) == [s \in {x \in DOMAIN m : x < n} |-> m[s]]

RECURSIVE Normal(_)
\* A run-length list without empty runs and with maximal ones
Normal(runs) ==
    IF runs = <<>> THEN <<>>
    ELSE IF Head(runs)[1] = 0 THEN Normal(Tail(runs))
    ELSE LET rest == Normal(Tail(runs))
         IN  IF rest # <<>> /\ Head(rest)[2] = Head(runs)[2]
             THEN << <<Head(rest)[1] + Head(runs)[1], Head(runs)[2]>> >> \o Tail(rest)
             ELSE <<Head(runs)>> \o rest

\* The first k bytes of a run-length list, and the rest
RECURSIVE Take(_, _)
Take(runs, k) ==
    IF k = 0 \/ runs = <<>> THEN <<>>
    ELSE IF Head(runs)[1] >= k THEN << <<k, Head(runs)[2]>> >>
    ELSE <<Head(runs)>> \o Take(Tail(runs), k - Head(runs)[1])
RECURSIVE Drop(_, _)
Drop(runs, k) ==
    IF k = 0 \/ runs = <<>> THEN runs
    ELSE IF Head(runs)[1] > k THEN << <<Head(runs)[1] - k, Head(runs)[2]>> >> \o Tail(runs)
    ELSE Drop(Tail(runs), k - Head(runs)[1])

RECURSIVE Flat(_)
Flat(sectors) == IF sectors = <<>> THEN <<>> ELSE Head(sectors) \o Flat(Tail(sectors))
RECURSIVE Sectors(_)
Sectors(runs) == IF runs = <<>> THEN <<>> ELSE <<Normal(Take(runs, 128))>> \o Sectors(Drop(runs, 128))

\* How many of the first k bytes have the given value
RECURSIVE Count(_, _, _)
Count(runs, k, b) ==
    IF k = 0 \/ runs = <<>> THEN 0
    ELSE LET n == IF Head(runs)[1] < k THEN Head(runs)[1] ELSE k
         IN  (IF Head(runs)[2] = b THEN n ELSE 0) + Count(Tail(runs), k - n, b)

\* The tables on a freshly formatted volume, one byte for every cluster
FreshTable(n) ==
    LET first == CHOOSE c \in Reserved(n) : \A d \in Reserved(n) : c <= d
    IN  Sectors(<< <<first - 1, 255>>, <<2, 254>>, <<(FatLen(n) * 128) - first - 1, 255>> >>)

Table(m, n, copy) == Slice(m, FatStart(n) + ((copy - 1) * FatLen(n)), FatLen(n))
Healthy(m, n) == Table(m, n, 1) = Table(m, n, 2) /\ Table(m, n, 1) = Table(m, n, 3)

Free(m, n) == Count(Flat(Table(m, n, 1)), Clusters(n), 255)

-----------------------------------------------------------------------------
(* Operations. What may come out of one is a set of records: the error, and  *)
(* every part of the state that changes.                                     *)

\* Number of sectors there are
Total == (size + 127) \div 128

Keep == [err |-> "none", data |-> <<>>, yes |-> FALSE, img |-> img, size |-> size, mounted |-> mounted,
         geo |-> geo, table |-> table, touched |-> touched, stat |-> stat]
Fail(err) == {[Keep EXCEPT !.err = err]}
Either(cond) == IF cond THEN {[Keep EXCEPT !.err = "any"], Keep} ELSE {}

NoStat == [bs |-> 0, total |-> 0, free |-> 0, avail |-> 0, files |-> 0, ffree |-> 0, name |-> 0]

FormatOut(a) ==
    LET n == a.size \div 128
        blank == Cut(img, n)
        dirs == DirStart(n)..(InfoSector(n) - 1)
        m1 == [s \in DOMAIN blank \cup dirs |-> IF s \in dirs THEN Fill(255) ELSE blank[s]]
        m2 == Written(m1, InfoSector(n), <<Blank>>)
        fat == FreshTable(n)
        free == (Tracks(n) - 1) * TrackLen(n)
    IN  IF mounted \/ a.size < 0 \/ a.size % 128 # 0 \/ n \notin Supported THEN Fail("any")
        ELSE IF file # "rw" THEN {[Keep EXCEPT !.err = "any", !.geo = 0]}
        ELSE {[Keep EXCEPT !.img = Written(m2, FatStart(n), fat \o fat \o fat), !.size = n * 128, !.geo = n,
                           !.stat = [bs |-> 128, total |-> n, free |-> free, avail |-> free, files |-> 0,
                                     ffree |-> Dirents(n), name |-> 10]]}

MountOut(a) ==
    LET n == size \div 128
        free == Free(img, n) * ClusterLen(n)
    IN  IF mounted THEN Fail("any")
        ELSE IF size % 128 # 0 THEN {} \* not specified
        ELSE IF file = "closed" \/ n \notin Supported THEN {[Keep EXCEPT !.err = "any", !.geo = 0]}
        ELSE IF ~Healthy(img, n) THEN {[Keep EXCEPT !.err = "corrupt", !.geo = 0]}
        ELSE {[Keep EXCEPT !.mounted = TRUE, !.geo = n, !.table = Table(img, n, 1), !.touched = FALSE,
                           !.stat = [bs |-> 128, total |-> n, free |-> free, avail |-> free, files |-> -1,
                                     ffree |-> -1, name |-> 10]]}

UnmountOut(a) == {[Keep EXCEPT !.mounted = FALSE, !.geo = 0, !.touched = FALSE]}

\* The table is written three times. If something else wrote to the tables after
\* the volume was mounted, that may be what is saved.
FlushOut(a) ==
    LET tables == {table} \cup (IF touched THEN {Table(img, geo, c) : c \in 1..3} ELSE {})
    IN  IF file # "rw" THEN Fail("any")
        ELSE {[Keep EXCEPT !.img = Written(img, FatStart(geo), t \o t \o t),
                           !.size = IF (DirEnd(geo) + 1) * 128 > size THEN (DirEnd(geo) + 1) * 128 ELSE size] : t \in tables}

ReadOut(start, count) ==
    IF count = 0 THEN Either(TRUE)
    ELSE IF start < 0 \/ count < 0 \/ start + count > geo \/ file = "closed" \/ start + count > size \div 128 THEN Fail("any")
    ELSE {[Keep EXCEPT !.data = Slice(img, start, count)]}

WriteOut(start, data, extra) ==
    LET n == Len(data)
    IN  IF extra # 0 THEN Fail("any")
        ELSE IF n = 0 THEN Either(TRUE)
        ELSE IF start < 0 \/ start + n > geo \/ file # "rw" THEN Fail("any")
        ELSE {[Keep EXCEPT !.img = Written(img, start, data),
                           !.size = IF (start + n) * 128 > size THEN (start + n) * 128 ELSE size,
                           !.touched = @ \/ (start..(start + n - 1)) \cap AllFats(geo) # {}]}

ReadClusterOut(c) ==
    IF ~Valid(geo, c) THEN Fail("any") ELSE ReadOut((c - 1) * ClusterLen(geo), ClusterLen(geo))
WriteClusterOut(c, data, extra) ==
    IF ~Valid(geo, c) \/ Len(data) # ClusterLen(geo) \/ extra # 0 THEN Fail("any")
    ELSE WriteOut((c - 1) * ClusterLen(geo), data, 0)

GetFatOut ==
    IF file = "closed" \/ DirEnd(geo) >= size \div 128 THEN Fail("any")
    ELSE IF ~Healthy(img, geo) THEN Fail("corrupt")
    ELSE {[Keep EXCEPT !.data = Table(img, geo, 1)]}

Outcomes(a) ==
    CASE a.op = "Format" -> FormatOut(a)
      [] a.op = "Mount" -> MountOut(a)
      [] a.op = "Unmount" -> UnmountOut(a)
      [] a.op = "Flush" -> IF mounted THEN FlushOut(a) ELSE {}
      [] a.op = "FSStat" -> {Keep}
      [] a.op = "ReadBlocks" -> IF geo # 0 THEN ReadOut(a.start, a.count) ELSE {}
      [] a.op = "WriteBlocks" -> IF geo # 0 THEN WriteOut(a.start, a.data, a.extra) ELSE {}
      [] a.op = "ReadCluster" -> IF geo # 0 THEN ReadClusterOut(a.c) ELSE {}
      [] a.op = "WriteCluster" -> IF geo # 0 THEN WriteClusterOut(a.c, a.data, a.extra) ELSE {}
      [] a.op = "ReadFile" -> IF geo = 0 THEN {}
            ELSE IF a.idx < 0 \/ a.idx >= Len(a.chain) THEN Fail("any") ELSE ReadClusterOut(a.chain[a.idx + 1])
      [] a.op = "WriteFile" -> IF geo = 0 THEN {}
            ELSE IF a.idx < 0 \/ a.idx >= Len(a.chain) THEN Fail("any")
            ELSE WriteClusterOut(a.chain[a.idx + 1], a.data, a.extra)
      [] a.op = "GetFAT" -> IF geo # 0 THEN GetFatOut ELSE {}
      [] a.op = "IsValid" -> IF geo # 0 THEN {[Keep EXCEPT !.yes = Valid(geo, a.c)]} ELSE {}
      [] OTHER -> {}

Apply(o) ==
    /\ img' = o.img /\ size' = o.size /\ mounted' = o.mounted /\ geo' = o.geo
    /\ table' = o.table /\ touched' = o.touched /\ stat' = o.stat

-----------------------------------------------------------------------------
(* What happens to the image behind the driver's back                        *)

\* Somebody writes to the image
Poke(s, data) ==
    /\ img' = Written(img, s, data)
    /\ size' = IF (s + Len(data)) * 128 > size THEN (s + Len(data)) * 128 ELSE size
    /\ touched' = (touched \/ (geo # 0 /\ (s..(s + Len(data) - 1)) \cap AllFats(geo) # {}))
    /\ UNCHANGED <<file, mounted, geo, table, stat>>

Resize(bytes) ==
    /\ size' = bytes
    /\ img' = Cut(img, (bytes + 127) \div 128)
    /\ touched' = TRUE
    /\ UNCHANGED <<file, mounted, geo, table, stat>>

Close == /\ file' = "closed"
         /\ UNCHANGED <<img, size, mounted, geo, table, touched, stat>>

\* A new driver for the same image
Fresh(how) ==
    /\ file' = how /\ mounted' = FALSE /\ geo' = 0 /\ table' = <<>> /\ touched' = FALSE /\ stat' = NoStat
    /\ UNCHANGED <<img, size>>

InitWith(m, bytes, how) ==
    /\ img = m /\ size = bytes /\ file = how
    /\ mounted = FALSE /\ geo = 0 /\ table = <<>> /\ touched = FALSE /\ stat = NoStat

-----------------------------------------------------------------------------
(* Properties of the design                                                  *)

TypeOK ==
    /\ size \in Nat /\ geo \in Supported \cup {0}
    /\ mounted => geo # 0 /\ Len(table) = FatLen(geo)
    /\ \A s \in DOMAIN img : s * 128 < size

\* Unless something else interferes, the tables of a mounted volume are identical
TablesAgree == mounted /\ ~touched => Healthy(img, geo) /\ Table(img, geo, 1) = table

\* The free space reported matches the tables
SpaceAgrees == (mounted /\ ~touched) => stat.free = Free(img, geo) * ClusterLen(geo)
=============================================================================
