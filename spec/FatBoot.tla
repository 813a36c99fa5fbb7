------------------------------ MODULE FatBoot -------------------------------
(* C20: what a FAT boot sector means, after Microsoft's specification 1.03.  *)
(* The input is a sequence of bytes.                                         *)
EXTENDS BigNat, FiniteSets

Word(b, at) == b[at + 1] + (256 * b[at + 2])
DWord(b, at) == Trim(<<Word(b, at), Word(b, at + 2)>>)

\* The fields of the first forty bytes
Fields(b) == [
    jmp |-> SubSeq(b, 1, 3), oem |-> SubSeq(b, 4, 11),
    bps |-> Word(b, 11), spc |-> b[14], reserved |-> Word(b, 14), fats |-> b[17], roots |-> Word(b, 17),
    total16 |-> Word(b, 19), media |-> b[22], fat16 |-> Word(b, 22), track |-> Word(b, 24), heads |-> Word(b, 26),
    hidden |-> DWord(b, 28), total32 |-> DWord(b, 32), fat32 |-> DWord(b, 36)]

SectorSizes == {512, 1024, 2048, 4096}
ClusterSizes == {1, 2, 4, 8, 16, 32, 64, 128}

SectorsPerFat(f) == IF f.fat16 # 0 THEN Big(f.fat16) ELSE f.fat32
TotalSectors(f) == IF f.total16 # 0 THEN Big(f.total16) ELSE f.total32
RootSectors(f) == ((f.roots * 32) + f.bps - 1) \div f.bps
FatSectors(f) == Mul(SectorsPerFat(f), f.fats)
DataStart(f) == Add(Add(FatSectors(f), Big(f.reserved)), Big(RootSectors(f)))
DataSectors(f) == Sub(TotalSectors(f), DataStart(f))
Clusters(f) == Div(DataSectors(f), f.spc)
Version(clusters) == IF Less(clusters, Big(4085)) THEN 12 ELSE IF Less(clusters, Big(65525)) THEN 16 ELSE 32

Rejected(b) ==
    \/ Len(b) < 40
    \/ LET f == Fields(b)
       IN  \/ f.bps \notin SectorSizes \/ f.spc \notin ClusterSizes
           \/ f.bps * f.spc > 32768
           \/ Less(TotalSectors(f), DataStart(f))

\* No reason to complain about anything
Sane(b) ==
    LET f == Fields(b)
    IN  /\ f.fats >= 1 /\ f.reserved >= 1 /\ SectorsPerFat(f) # <<>> /\ Clusters(f) # <<>>
        /\ (Version(Clusters(f)) = 32) = (f.roots = 0)
        /\ f.media = 240 \/ f.media >= 248
        /\ f.jmp[1] = 233 \/ (f.jmp[1] = 235 /\ f.jmp[3] = 144)

Geometry(b) ==
    LET f == Fields(b)
    IN  [jmp |-> f.jmp, oem |-> f.oem, bps |-> f.bps, spc |-> f.spc, reserved |-> f.reserved, fats |-> f.fats,
         roots |-> f.roots, total16 |-> f.total16, media |-> f.media, fat16 |-> f.fat16, track |-> f.track,
         heads |-> f.heads, hidden |-> f.hidden, total32 |-> f.total32,
         spf |-> SectorsPerFat(f), fatsectors |-> FatSectors(f), rootsectors |-> RootSectors(f),
         bpc |-> f.bps * f.spc, clusters |-> Clusters(f), datasectors |-> DataSectors(f),
         first |-> DataStart(f), version |-> Version(Clusters(f)), dirents |-> (f.bps * f.spc) \div 32]

-----------------------------------------------------------------------------
(* Properties of the design                                                  *)

\* The areas follow each other, and the clusters lie in the data area
Layout(b) ==
    ~Rejected(b) =>
        LET f == Fields(b)
            used == Mul(Clusters(f), f.spc)
        IN  /\ Add(DataStart(f), DataSectors(f)) = TotalSectors(f)
            /\ LessEq(used, DataSectors(f))
            /\ Less(DataSectors(f), Add(used, Big(f.spc)))
            /\ RootSectors(f) * f.bps >= f.roots * 32
            /\ (RootSectors(f) - 1) * f.bps < f.roots * 32
=============================================================================
