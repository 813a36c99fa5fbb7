------------------------------- MODULE MCFat8 -------------------------------
(* Bounded histories of a FAT8 driver, for TLC and for generating scripts.  *)
EXTENDS Fat8, Json, SequencesExt

CONSTANTS Mode, Depth, Emitting

VARIABLES lab, steps

mcvars == <<f8vars, lab, steps>>

ASSUME Disjoint

\* Allocation tables with something in them
Used(k) == Normal(<< <<k, 255>>, <<1, 193>>, <<1, k>>, <<126 - k, 255>> >>)

Junk(n) == [s \in {0, DirStart(n), DirStart(n) + 1, InfoSector(n), FatStart(n), n - 1} |-> Fill(90)]

Images ==
    CASE Mode = "volume" ->
            {[m |-> <<>>, size |-> 0], [m |-> Junk(640), size |-> 640 * 128], [m |-> <<>>, size |-> 1898 * 128],
             [m |-> Junk(2002), size |-> 2002 * 128]}
      [] Mode = "io" -> {[m |-> <<>>, size |-> 640 * 128]}
      [] Mode = "big" -> {[m |-> <<>>, size |-> 2002 * 128], [m |-> <<>>, size |-> 1898 * 128]}

MCInit == /\ \E i \in Images, how \in (IF Mode = "volume" THEN {"rw", "ro"} ELSE {"rw"}) : InitWith(i.m, i.size, how)
          /\ lab = [k |-> "start"] /\ steps = 0

Sizes == {128 * 640, 128 * 1898, 128 * 2002, 128 * 641, (128 * 640) + 1, (128 * 1898) - 127, 0, -128 * 640}

Spots(n) == {1, 2, ClusterLen(n)}
IoClusters(n) == {0, 1, 2, Clusters(n), Clusters(n) + 1} \cup Reserved(n)
Fills == {Fill(17), << <<1, 3>>, <<127, 4>> >>}
ClusterData(n, f) == [i \in 1..ClusterLen(n) |-> IF i = 1 THEN f ELSE Fill(i)]
IoSectors(n) == {0, 1, ClusterLen(n) - 1, ClusterLen(n), InfoSector(n), FatStart(n), n - 1, n}

Args ==
    IF Mode = "volume"
    THEN {[op |-> "Format", size |-> s] : s \in Sizes} \cup {[op |-> "Mount"]}
         \cup (IF mounted THEN {[op |-> "Unmount"], [op |-> "Flush"]} ELSE {})
         \cup (IF geo # 0 THEN {[op |-> "FSStat"], [op |-> "GetFAT"]} ELSE {})
    ELSE IF geo = 0 THEN {[op |-> "Mount"]}
    ELSE {[op |-> "ReadCluster", c |-> c] : c \in IoClusters(geo)}
         \cup {[op |-> "WriteCluster", c |-> c, data |-> ClusterData(geo, f), extra |-> 0] : c \in IoClusters(geo), f \in Fills}
         \cup {[op |-> "WriteCluster", c |-> 3, data |-> SubSeq(ClusterData(geo, Fill(9)), 1, ClusterLen(geo) - 1), extra |-> x] : x \in {0, 127}}
         \cup {[op |-> "WriteCluster", c |-> 3, data |-> ClusterData(geo, Fill(9)), extra |-> 1]}
         \cup {[op |-> "IsValid", c |-> c] : c \in IoClusters(geo)}
         \cup {[op |-> "ReadBlocks", start |-> s, count |-> k] : s \in IoSectors(geo), k \in {1, 2}}
         \cup {[op |-> "WriteBlocks", start |-> s, data |-> SubSeq(<<Fill(71), Fill(72)>>, 1, k), extra |-> 0] : s \in IoSectors(geo), k \in {1, 2}}
         \cup {[op |-> "ReadFile", chain |-> <<5, 0, 1, Clusters(geo)>>, idx |-> i] : i \in 0..4}
         \cup {[op |-> "WriteFile", chain |-> <<5, 0, 1, Clusters(geo)>>, idx |-> i, data |-> ClusterData(geo, f), extra |-> 0] : i \in 0..4, f \in Fills}

MCCall ==
    \E a \in Args :
        /\ \E o \in Outcomes(a) : Apply(o)
        /\ lab' = [k |-> "call", c |-> a]
        /\ UNCHANGED file

\* Changes of the tables by somebody else
Volume == IF geo # 0 THEN geo ELSE IF size \div 128 \in Supported THEN size \div 128 ELSE 0
MCPoke ==
    /\ Mode = "volume" /\ Volume # 0
    /\ \E copy \in 1..3, k \in {0, 3} :
        LET s == FatStart(Volume) + ((copy - 1) * FatLen(Volume)) + (IF k = 3 THEN FatLen(Volume) - 1 ELSE 0)
        IN  /\ Poke(s, <<Used(k)>>)
            /\ lab' = [k |-> "call", c |-> [op |-> "poke", s |-> s, data |-> <<Used(k)>>]]
MCPokeAll ==
    /\ Mode = "volume" /\ Volume # 0
    /\ LET t == IF FatLen(Volume) = 1 THEN <<Used(7)>> ELSE <<Used(7), Used(1)>>
       IN  /\ Poke(FatStart(Volume), t \o t \o t)
           /\ lab' = [k |-> "call", c |-> [op |-> "poke", s |-> FatStart(Volume), data |-> t \o t \o t]]

MCFresh ==
    /\ Mode = "volume"
    /\ Fresh("rw")
    /\ lab' = [k |-> "call", c |-> [op |-> "fresh", file |-> "rw"]]

MCNext == /\ steps < Depth /\ steps' = steps + 1
          /\ MCCall \/ MCPoke \/ MCPokeAll \/ MCFresh

Spec == MCInit /\ [][MCNext]_mcvars

\* Flushing touches nothing other than the tables; refused operations touch nothing
FlushIsLocal == [][lab'.k = "call" /\ lab'.c.op = "Flush" => Differ(img, img') \subseteq AllFats(geo)]_mcvars
MountIsPassive == [][lab'.k = "call" /\ lab'.c.op \in {"Mount", "Unmount", "FSStat", "GetFAT", "ReadCluster", "ReadBlocks", "ReadFile"}
                        => img' = img /\ size' = size]_mcvars
\* Writing a cluster changes no other
ClusterIsLocal == [][lab'.k = "call" /\ lab'.c.op = "WriteCluster" => Differ(img, img') \subseteq ClusterSectors(geo, lab'.c.c)]_mcvars
FormattedIsEmpty == \A n \in Supported :
    (lab.k = "call" /\ lab.c.op = "Format" /\ ~mounted /\ file = "rw" /\ lab.c.size = n * 128) =>
        /\ Healthy(img, n) /\ size = n * 128
        /\ Free(img, n) * ClusterLen(n) = stat.free
        /\ \A s \in DirStart(n)..(InfoSector(n) - 1) : At(img, s) = Fill(255)

View0 == <<f8vars, steps>>
Start == [size |-> size, file |-> file, img |-> {[s |-> s, v |-> img[s]] : s \in DOMAIN img}]
Canon(m) == LET d == SetToSortSeq(DOMAIN m, LAMBDA a, b : a < b) IN [i \in 1..Len(d) |-> <<d[i], m[d[i]]>>]
State == [i |-> Canon(img), z |-> size, f |-> file, m |-> mounted, g |-> geo, t |-> table, x |-> touched, n |-> steps]
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> State, t |-> State',
                                          l |-> IF steps = 0 THEN lab' @@ [start |-> Start] ELSE lab']))
=============================================================================
