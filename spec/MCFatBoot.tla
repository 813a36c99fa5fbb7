----------------------------- MODULE MCFatBoot ------------------------------
(* Boot sectors around every threshold: the layout they prescribe is sound.  *)
(* Each one is printed for the real code. Also checks the arithmetic.        *)
EXTENDS FatBoot, TLC, Json

CONSTANTS Emitting, Deep

VARIABLES b, lab

Bytes2(n) == <<n % 256, n \div 256>>
Bytes4(n) == Bytes2(Digit(n, 1)) \o Bytes2(Digit(n, 2))

Choices == [
    bps : IF Deep THEN SectorSizes ELSE {512, 4096},
    spc : IF Deep THEN {1, 2, 8, 64, 128} ELSE {1, 8, 128},
    reserved : {1, 32},
    fats : IF Deep THEN {1, 2, 3} ELSE {2},
    roots : {0, 17, 512},
    fat : {<<9, 0>>, <<0, 513>>, <<7, 900>>, <<0, 65537>>},
    clusters : {0, 1, 4084, 4085, 65524, 65525},
    \* what is left in the last cluster, or one sector too few
    rest : {"none", "most", "short"},
    total : {16, 32}]

Encode(c, total) ==
    <<235, 60, 144>> \o <<68, 73, 83, 75, 79, 32, 49, 46>> \o Bytes2(c.bps) \o <<c.spc>> \o Bytes2(c.reserved)
    \o <<c.fats>> \o Bytes2(c.roots)
    \o (IF c.total = 16 THEN Bytes2(Digit(total, 1)) ELSE <<0, 0>>) \o <<248>> \o Bytes2(c.fat[1])
    \o <<63, 0, 255, 0, 0, 0, 0, 0>>
    \o (IF c.total = 16 THEN <<0, 0, 0, 0>> ELSE Bytes4(total)) \o Bytes4(Big(c.fat[2]))

\* The number of sectors is chosen to get the number of clusters
Sector(c) ==
    LET start == DataStart(Fields(Encode(c, <<>>)))
        data == Mul(Big(c.clusters), c.spc)
        total == CASE c.rest = "none" -> Add(start, data)
                   [] c.rest = "most" -> Add(Add(start, data), Big(c.spc - 1))
                   [] c.rest = "short" -> Sub(Add(start, data), <<1>>)
    IN  Encode(c, total)

MCInit == b = <<>> /\ lab = [k |-> "start"]
MCNext == /\ b = <<>>
          /\ \E c \in Choices : b' = Sector(c)
          /\ lab' = [k |-> "call", b |-> b']
Spec == MCInit /\ [][MCNext]_<<b, lab>>

Sound == b # <<>> => Layout(b)
ASSUME \A c \in [bps : {512}, spc : {4}, reserved : {1}, fats : {2}, roots : {512}, fat : {<<9, 0>>},
                 clusters : {1, 4084, 4085, 65524}, rest : {"none", "most"}, total : {32}] :
           ~Rejected(Sector(c)) /\ Clusters(Fields(Sector(c))) = Big(c.clusters) /\ Sane(Sector(c))

\* The arithmetic agrees with TLC's own where that suffices
Samples == {0, 1, 2, 3, 32767, 32768, 65535, 65536, 65537, 131071, 1000000}
ASSUME \A x, y \in Samples :
    /\ Small(Add(Big(x), Big(y))) = x + y
    /\ Less(Big(x), Big(y)) = (x < y)
    /\ y <= x => Small(Sub(Big(x), Big(y))) = x - y
ASSUME \A x \in Samples, k \in {1, 2, 3, 100, 255, 2000} :
    /\ Small(Mul(Big(x), k)) = x * k
    /\ Small(Div(Big(x), k)) = x \div k
    /\ Rem(Big(x), k) = x % k

View0 == b
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> b, t |-> b', l |-> lab']))
=============================================================================
