------------------------------ MODULE FatTree -------------------------------
(* FAT volumes: directory entries, directories, chains of clusters, reading  *)
(* and removing files, and changing their metadata. C21, C22, C23, C31.      *)
(*                                                                           *)
(* The content of the volume is in chunks of 32 bytes, as run-length lists   *)
(* <<count, byte>>. Dates are sequences <<year, month, day, hour, minute,    *)
(* second, hundredths>>. Numbers beyond 16 bits are BigNats.                 *)
EXTENDS BigNat, Integers, FiniteSets, TLC

VARIABLES
    vol,    \* the volume: constant parameters and content, see below
    cl,     \* the call being executed
    freed,  \* clusters freed so far
    sane    \* no cluster is used twice at the beginning

fvars == <<vol, cl, freed, sane>>

(* vol.spc, vol.bpc: sectors and bytes in a cluster                          *)
(* vol.n: number of clusters; valid ones are 2..n+1                          *)
(* vol.eoc: this and larger values end a chain                               *)
(* vol.fat: the table: index -> what's there; 0 if not in the domain         *)
(* vol.data: cluster -> sequence of chunks; zeros if not in the domain       *)
(* vol.root: chunks of the root directory                                    *)

-----------------------------------------------------------------------------
(* Directory entries                                                         *)

RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE Expand(_)
Expand(runs) == IF runs = <<>> THEN <<>> ELSE Repeat(runs[1][2], runs[1][1]) \o Expand(Tail(runs))

W16(b, at) == b[at + 1] + (256 * b[at + 2])
SPACE == 32

RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] = SPACE THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Bit(v, k) == (v \div k) % 2 = 1
ReadOnly(attr) == Bit(attr, 1)
Label(attr) == Bit(attr, 8)
Directory(attr) == Bit(attr, 16)
Device(attr) == Bit(attr, 64)

DateOf(w) == <<1980 + (w \div 512), (w \div 32) % 16, w % 32>>
TimeOf(w, hundredths) == <<w \div 2048, (w \div 32) % 64, ((w % 32) * 2) + (hundredths \div 100), hundredths % 100>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
ValidDate(w) == LET d == DateOf(w) IN d[2] \in 1..12 /\ d[3] >= 1 /\ d[3] <= MonthLen(d[1], d[2])
ValidTime(w, hundredths) == w \div 2048 < 24 /\ (w \div 32) % 64 < 60 /\ w % 32 < 30 /\ hundredths < 200

\* A timestamp, or <<>> if there is no such moment
Stamp(date, time, hundredths) ==
    IF ValidDate(date) /\ ValidTime(time, hundredths) THEN DateOf(date) \o TimeOf(time, hundredths) ELSE <<>>

EndMark(b) == b[1] = 0
Deleted(b) == b[1] = 229

NameOf(b) ==
    LET stem == RTrim(SubSeq(b, 1, 8))
        ext == RTrim(SubSeq(b, 9, 11))
        first == IF b[1] = 5 THEN <<229>> \o Tail(stem) ELSE stem
    IN  IF ext = <<>> THEN first ELSE first \o <<46>> \o ext

\* Rounded up
Blocks(size, bpc) == Div(Add(size, Big(bpc - 1)), bpc)

\* What an entry's 32 bytes mean
Entry(b, bpc) ==
    LET attr == b[12]
        size == Trim(<<W16(b, 28), W16(b, 30)>>)
    IN  [name |-> NameOf(b), deleted |-> Deleted(b), attr |-> attr, nt |-> b[13],
         first |-> Trim(<<W16(b, 26), W16(b, 20)>>), size |-> size,
         created |-> IF Deleted(b) THEN <<>> ELSE Stamp(W16(b, 16), W16(b, 14), b[14]),
         modified |-> Stamp(W16(b, 24), W16(b, 22), 0),
         accessed |-> Stamp(W16(b, 18), 0, 0),
         dir |-> Directory(attr),
         perm |-> IF ReadOnly(attr) THEN 365 ELSE 511, \* 0555, 0777
         device |-> Device(attr) /\ ~Directory(attr),
         blocks |-> Blocks(size, bpc)]

\* The first character of a deleted entry's name is lost
NameOk(want, got, deleted) ==
    IF deleted THEN Len(got) >= 1 /\ SubSeq(got, 2, Len(got)) = Tail(want) ELSE got = want

StampOk(want, got) == want = <<>> \/ got = want

EntryOk(e, got, bpc) ==
    /\ NameOk(e.name, got.name, e.deleted)
    /\ got.deleted = e.deleted /\ got.attr = e.attr /\ got.nt = e.nt
    /\ got.first = e.first /\ got.size = e.size
    /\ StampOk(e.created, got.created) /\ StampOk(e.modified, got.modified) /\ StampOk(e.accessed, got.accessed)
    /\ got.dir = e.dir /\ got.isdir = e.dir /\ got.perm = e.perm /\ got.device = e.device
    /\ got.other = FALSE

\* The same as reported by Stat
StatOk(e, got, bpc) ==
    /\ got.size = e.size /\ got.blocks = e.blocks /\ got.bs = bpc /\ got.nlinks = 1
    /\ got.dir = e.dir /\ got.perm = e.perm /\ got.device = e.device
    /\ StampOk(e.created, got.created) /\ StampOk(e.modified, got.modified) /\ StampOk(e.accessed, got.accessed)
    /\ got.ino = e.first

-----------------------------------------------------------------------------
(* Chains and directories                                                    *)

Valid(c) == c >= 2 /\ c <= vol.n + 1
Ends(c) == c >= vol.eoc

Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Follow(_, _)
Follow(c, seen) ==
    IF Ends(c) THEN [ok |-> TRUE, list |-> seen]
    ELSE IF ~Valid(c) \/ c \in Range(seen) THEN [ok |-> FALSE, list |-> seen]
    ELSE Follow(IF c \in DOMAIN vol.fat THEN vol.fat[c] ELSE 0, Append(seen, c))
Chain(c) == Follow(c, <<>>)

RECURSIVE Join(_)
Join(clusters) == IF clusters = <<>> THEN <<>>
                  ELSE (IF Head(clusters) \in DOMAIN vol.data THEN vol.data[Head(clusters)] ELSE Repeat(<< <<32, 0>> >>, vol.bpc \div 32))
                       \o Join(Tail(clusters))

RECURSIVE BeforeEnd(_)
\* The entries (as bytes) before the end marker
BeforeEnd(chunks) ==
    IF chunks = <<>> THEN [marked |-> FALSE, list |-> <<>>]
    ELSE IF chunks[1][1][2] = 0 THEN [marked |-> TRUE, list |-> <<>>]
    ELSE LET rest == BeforeEnd(Tail(chunks)) IN [rest EXCEPT !.list = <<Expand(chunks[1])>> \o @]

\* First clusters are BigNats; those that matter are small
Num(big) == IF Fits(big) THEN Small(big) ELSE 2147483647

\* The entries of the directory that starts at this cluster (0 is the root)
Listing(first) ==
    IF first = 0
    THEN [ok |-> TRUE, list |-> BeforeEnd(vol.root).list]
    ELSE LET chain == Chain(first)
             entries == BeforeEnd(Join(chain.list))
         IN  [ok |-> chain.ok \/ entries.marked, list |-> entries.list]

Matches(list, name) ==
    {i \in 1..Len(list) : ~Deleted(list[i]) /\ ~Label(list[i][12]) /\ NameOf(list[i]) = name}

Found(e, dir, ix) == [res |-> "entry", b |-> e, dir |-> dir, ix |-> ix]
RootFound == [res |-> "root"]

RECURSIVE Walk(_, _, _)
\* What following names from a directory may come to
Walk(dir, names, dent) ==
    IF names = <<>> THEN {dent}
    ELSE LET l == Listing(dir)
             at == Matches(l.list, Head(names))
         IN  (IF l.ok THEN {} ELSE {[res |-> "bad"]})
             \cup (IF at = {} /\ l.ok THEN {[res |-> "none"]} ELSE {})
             \cup UNION {LET b == l.list[i]
                             found == Found(b, dir, i)
                         IN  IF Len(names) = 1 THEN {found}
                             ELSE IF ~Directory(b[12]) THEN {[res |-> "notdir"]}
                             ELSE Walk(Num(Entry(b, vol.bpc).first), Tail(names), found) : i \in at}

DOT == <<46>>
DOTDOT == <<46, 46>>

RECURSIVE Clean(_, _)
\* Components of a path without empty ones, "." and ".."
Clean(parts, done) ==
    IF parts = <<>> THEN done
    ELSE IF Head(parts) \in {<<>>, DOT} THEN Clean(Tail(parts), done)
    ELSE IF Head(parts) = DOTDOT THEN Clean(Tail(parts), SubSeq(done, 1, IF Len(done) = 0 THEN 0 ELSE Len(done) - 1))
    ELSE Clean(Tail(parts), Append(done, Head(parts)))

\* Whether something else than the plain names of a path may have a say
Unclean(parts) == \/ DOTDOT \in Range(parts)
                  \/ parts # <<>> /\ parts[Len(parts)] \in {<<>>, DOT}

Lookup(parts) ==
    Walk(0, Clean(parts, <<>>), RootFound) \cup (IF Unclean(parts) THEN {[res |-> "bad"]} ELSE {})

-----------------------------------------------------------------------------
(* Reading                                                                   *)

RECURSIVE TakeRuns(_, _)
\* The first n bytes of a chunk
TakeRuns(runs, n) ==
    IF n = 0 THEN <<>>
    ELSE IF Head(runs)[1] >= n THEN << <<n, Head(runs)[2]>> >>
    ELSE <<Head(runs)>> \o TakeRuns(Tail(runs), n - Head(runs)[1])

\* The first n bytes of a sequence of chunks
Take(chunks, n) ==
    SubSeq(chunks, 1, n \div 32) \o (IF n % 32 = 0 THEN <<>> ELSE <<TakeRuns(chunks[(n \div 32) + 1], n % 32)>>)

\* What reading the file may come to: contents, or an error
FileOut(b) ==
    LET e == Entry(b, vol.bpc)
        chain == Chain(Num(e.first))
        need == Num(e.blocks)
    IN  IF e.dir THEN {[err |-> "any"]}
        ELSE IF e.size = <<>> THEN {[err |-> "none", data |-> <<>>]}
        ELSE IF need > Len(chain.list) THEN {[err |-> "any"]}
        ELSE {[err |-> "none", data |-> Take(Join(SubSeq(chain.list, 1, need)), Num(e.size))]}
             \cup (IF chain.ok THEN {} ELSE {[err |-> "any"]})

ReadOut(r) ==
    CASE r.res = "entry" -> FileOut(r.b)
      [] r.res = "none" -> {[err |-> "noent"]}
      [] OTHER -> {[err |-> "any"]}

ListOut(r) ==
    LET l == IF r.res = "root" THEN Listing(0) ELSE IF r.res = "entry" THEN Listing(Num(Entry(r.b, vol.bpc).first)) ELSE [ok |-> FALSE]
    IN  CASE r.res = "root" \/ (r.res = "entry" /\ Directory(r.b[12])) ->
                IF l.ok THEN {[err |-> "none", list |-> l.list]} ELSE {[err |-> "any"]}
          [] r.res = "none" -> {[err |-> "noent"]}
          [] OTHER -> {[err |-> "any"]}

StatOut(r) ==
    CASE r.res = "entry" -> {[err |-> "none", b |-> r.b]}
      [] r.res = "root" -> {[err |-> "none"]}
      [] r.res = "none" -> {[err |-> "noent"]}
      [] OTHER -> {[err |-> "any"]}

-----------------------------------------------------------------------------
(* Removing, and changing metadata: one step for everything that the version *)
(* specific part of the driver is asked to do.                               *)

NoCall == [op |-> "", failed |-> FALSE]

\* A call begins. There may be several things it can be about (on damaged volumes,
\* and with unusual paths); which one it is shows later.
Start(e) ==
    /\ cl.op = ""
    /\ cl' = [op |-> e.op, a |-> e, failed |-> FALSE, rs |-> Lookup(e.path), ok |-> FALSE, chain |-> <<>>,
              left |-> 0, deleted |-> FALSE, updated |-> FALSE]
    /\ UNCHANGED <<vol, freed, sane>>

\* Something the driver needed failed.
Fault == cl.op # "" /\ cl' = [cl EXCEPT !.failed = TRUE] /\ UNCHANGED <<vol, freed, sane>>

IsFile(r) == r.res = "entry" /\ ~Directory(r.b[12])
FileChain(r) == LET c == Num(Entry(r.b, vol.bpc).first) IN IF c = 0 THEN [ok |-> TRUE, list |-> <<>>] ELSE Chain(c)

\* The chunk with its first byte replaced
Struck(chunk) == LET n == chunk[1][1] IN IF n = 1 THEN <<<<1, 229>>>> \o Tail(chunk) ELSE <<<<1, 229>>, <<n - 1, chunk[1][2]>>>> \o Tail(chunk)

PerCluster == vol.bpc \div 32

WithEntry(dir, ix, F(_)) ==
    IF dir = 0 THEN [vol EXCEPT !.root[ix] = F(@)]
    ELSE LET c == Chain(dir).list[((ix - 1) \div PerCluster) + 1]
         IN  [vol EXCEPT !.data[c][((ix - 1) % PerCluster) + 1] = F(@)]

\* The entry is deleted, first of all
DeleteEntry(name, first, parent, failing) ==
    /\ cl.op = "Remove" /\ ~cl.deleted /\ ~cl.failed
    /\ \E r \in cl.rs :
        /\ IsFile(r)
        /\ name = NameOf(r.b) /\ first = Entry(r.b, vol.bpc).first /\ parent = Big(r.dir)
        /\ LET chain == FileChain(r)
               chosen == [cl EXCEPT !.rs = {r}, !.ok = chain.ok, !.chain = chain.list, !.left = Len(chain.list)]
           IN  IF failing
               THEN cl' = [chosen EXCEPT !.failed = TRUE] /\ vol' = vol
               ELSE cl' = [chosen EXCEPT !.deleted = TRUE] /\ vol' = WithEntry(r.dir, r.ix, Struck)
    /\ UNCHANGED <<freed, sane>>

\* The last cluster that is left is freed. After a failure the one that couldn't
\* be freed may be skipped.
Free(c, failing) ==
    /\ cl.op = "Remove" /\ cl.deleted
    /\ cl.left > 0 /\ cl.chain[cl.left] = c
    /\ cl' = [cl EXCEPT !.left = @ - 1, !.failed = @ \/ failing]
    /\ IF failing THEN UNCHANGED <<vol, freed>>
       ELSE vol' = [vol EXCEPT !.fat = (c :> 0) @@ @] /\ freed' = freed \cup {c}
    /\ UNCHANGED sane

\* Whether a removal may end like this
RemoveDone(err) ==
    \E r \in cl.rs :
        IF IsFile(r)
        THEN IF cl.failed \/ ~(IF cl.deleted THEN cl.ok ELSE FileChain(r).ok) THEN err # {}
             ELSE err = {} /\ cl.deleted /\ cl.left = 0
        ELSE /\ err # {}
             /\ r.res = "none" /\ ~cl.failed => "noent" \in err

-----------------------------------------------------------------------------
(* Metadata                                                                  *)

\* Before 1980
Early(t) == t[1] < 1980

MustRefuse == cl.op = "Chtimes" /\ (Early(cl.a.atime) \/ Early(cl.a.mtime))

\* The read-only attribute may be updated already
WithReadOnly(attr, on) == (attr - (attr % 2)) + (IF on THEN 1 ELSE 0)

\* The entry is written back with exactly these changes
Update(got, failing) ==
    /\ cl.op \in {"Chmod", "Chtimes"} /\ ~cl.updated /\ ~cl.failed /\ ~MustRefuse
    /\ \E r \in cl.rs :
        /\ r.res \in {"entry", "root"}
        /\ r.res = "entry" =>
               LET e == Entry(r.b, vol.bpc)
               IN  /\ got.name = e.name /\ got.first = e.first /\ got.size = e.size
                   /\ got.attr = e.attr \/ (cl.op = "Chmod" /\ got.attr = WithReadOnly(e.attr, ~cl.a.write))
                   /\ got.stat.size = e.size /\ got.stat.ino = e.first
                   /\ StampOk(e.created, got.stat.created)
                   /\ IF cl.op = "Chtimes"
                      THEN /\ got.stat.accessed = cl.a.atime /\ got.stat.modified = cl.a.mtime
                           /\ got.stat.perm = e.perm
                      ELSE /\ StampOk(e.accessed, got.stat.accessed) /\ StampOk(e.modified, got.stat.modified)
                           /\ got.stat.perm = IF cl.a.write THEN 511 ELSE 365
        /\ cl' = [cl EXCEPT !.rs = {r}, !.updated = ~failing, !.failed = failing]
    /\ UNCHANGED <<vol, freed, sane>>

ChangeDone(err) ==
    \E r \in cl.rs :
        IF r.res = "entry"
        THEN IF cl.failed \/ MustRefuse THEN err # {} ELSE err = {} /\ cl.updated
        ELSE IF r.res = "root" THEN (cl.failed \/ MustRefuse => err # {})
        ELSE /\ err # {}
             /\ r.res = "none" /\ ~cl.failed => "noent" \in err

-----------------------------------------------------------------------------

ErrOk(want, got) == CASE want = "none" -> got = {} [] want = "any" -> got # {} [] OTHER -> want \in got

Set(seq) == {seq[i] : i \in 1..Len(seq)}

\* Anything that needed to be read couldn't be: an error
OrFault(out) == IF cl.failed THEN {[err |-> "any"]} ELSE out

Done(e) ==
    LET err == Set(e.err)
    IN  /\ e.op = cl.op
        /\ CASE cl.op = "Remove" -> RemoveDone(err)
             [] cl.op \in {"Chmod", "Chtimes"} -> ChangeDone(err)
             [] cl.op = "ReadFile" ->
                    \E o \in OrFault(UNION {ReadOut(r) : r \in cl.rs}) : ErrOk(o.err, err) /\ (o.err = "none" => e.data = o.data)
             [] cl.op = "Readdir" ->
                    \E o \in OrFault(UNION {ListOut(r) : r \in cl.rs}) :
                        /\ ErrOk(o.err, err)
                        /\ o.err = "none" => /\ Len(e.list) = Len(o.list)
                                             /\ TRUE = \A i \in 1..Len(o.list) : EntryOk(Entry(o.list[i], vol.bpc), e.list[i], vol.bpc)
                                                                               /\ StatOk(Entry(o.list[i], vol.bpc), e.list[i].stat, vol.bpc)
             [] cl.op \in {"Stat", "Lstat"} ->
                    \E o \in OrFault(UNION {StatOut(r) : r \in cl.rs}) :
                        /\ ErrOk(o.err, err)
                        /\ o.err = "none" => IF "b" \in DOMAIN o THEN StatOk(Entry(o.b, vol.bpc), e.stat, vol.bpc) ELSE e.stat.dir
             [] cl.op \in {"Readlink", "Chown", "Lchown", "Link", "Symlink"} -> "notsup" \in err
        /\ cl' = NoCall
        /\ UNCHANGED <<vol, freed, sane>>

-----------------------------------------------------------------------------
(* Properties of the design                                                  *)

\* Everything that's reachable in the directories of the volume, as <<dir, index, bytes>>.
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
    IF todo = {} THEN {}
    ELSE LET d == CHOOSE x \in todo : TRUE
             l == Listing(d)
             here == {<<d, i, l.list[i]>> : i \in {j \in 1..Len(l.list) : ~Deleted(l.list[j]) /\ ~Label(l.list[j][12])}}
             dots == {x \in here : NameOf(x[3]) \in {DOT, DOTDOT}}
             subs == {Num(Entry(x[3], vol.bpc).first) : x \in {y \in here \ dots : Directory(y[3][12])}}
         IN  (here \ dots) \cup Reach((todo \cup subs) \ (seen \cup {d}), seen \cup {d})
All == Reach({0}, {})

FirstOf(x) == Num(Entry(x[3], vol.bpc).first)
ChainOf(x) == IF FirstOf(x) = 0 THEN [ok |-> TRUE, list |-> <<>>] ELSE Chain(FirstOf(x))

\* Chains are complete and no two entries share a cluster
Consistent ==
    LET all == All
    IN  /\ \A x \in all : ChainOf(x).ok
        /\ \A x, y \in all : x # y => Range(ChainOf(x).list) \cap Range(ChainOf(y).list) = {}

\* At every moment, no entry refers to a cluster that was freed.
NoDangling == sane => \A x \in All : Range(ChainOf(x).list) \cap freed = {} /\ ChainOf(x).ok

InitWith(v) ==
    /\ vol = v /\ cl = NoCall /\ freed = {}
=============================================================================
