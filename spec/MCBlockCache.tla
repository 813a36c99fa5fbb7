---------------------------- MODULE MCBlockCache ----------------------------
(* A bounded instance of BlockCache that TLC explores exhaustively.  It    *)
(* checks the design's own properties, and prints every transition so that *)
(* scripts covering all of them can be executed on the real code.          *)
EXTENDS BlockCache, Json

CONSTANTS MaxBlocks, InitBlocks, BlockSize, Bytes, MaxData, Kind, Emitting

VARIABLE lab
mvars == <<vars, lab>>

Image(n) == [i \in 1..n |-> 100 + i]

Init ==
    /\ InitWith(Kind, "cb", FALSE, BlockSize, InitBlocks, Image(InitBlocks * BlockSize))
    /\ lab = [k |-> "init"]

\* Data to be written: all sequences of up to MaxData bytes of one value,
\* whatever the combination of values is doesn't matter to a cache.
Datas == {[i \in 1..n |-> v] : n \in 1..MaxData, v \in Bytes}

Calls ==
    {[op |-> "ReadAt", start |-> s, len |-> k] : s \in 0..nb, k \in {1, BlockSize + 1}}
    \cup {[op |-> "WriteAt", start |-> s, data |-> d] : s \in 0..nb, d \in Datas}
    \cup {[op |-> "GetSlice", start |-> s, count |-> k] : s \in 0..nb, k \in 1..2}
    \cup {[op |-> "Mark", start |-> s, count |-> k] : s \in 0..nb, k \in 1..2}
    \cup {[op |-> "Flush"]}
    \cup {[op |-> "Resize", n |-> n] : n \in 0..MaxBlocks}

\* What a correct implementation could answer.
Results ==
    LET res(n, e, d) == [n |-> n, err |-> e, data |-> d]
        inj == {"injected"}
    IN  CASE cl.op = "ReadAt" -> IF Refused THEN {res(0, {"range"}, Untouched(cl.len))}
                                 ELSE {res(cl.len, {}, ReadResult), res(0, inj, Untouched(cl.len))}
          [] cl.op = "WriteAt" -> IF Refused THEN {res(0, {"range"}, <<>>)}
                                  ELSE {res(Len(cl.data), {}, <<>>), res(0, inj, <<>>)}
          [] cl.op = "GetSlice" -> IF Refused THEN {res(0, {"range"}, <<>>)}
                                   ELSE {res(0, {}, ViewRange(cl.start, cl.count)), res(0, inj, <<>>)}
          [] cl.op = "Mark" -> IF Refused THEN {res(0, {"range"}, <<>>)}
                               ELSE {res(0, {}, <<>>), res(0, inj, <<>>)}
          [] OTHER -> {res(0, {}, <<>>), res(0, inj, <<>>)}

Wanted == IF Ranged THEN Range(RangeArgs[1], RangeArgs[2]) ELSE {}

MCCall == \E c \in Calls : Call(c) /\ lab' = [k |-> "call", c |-> c]
MCFetch ==
    \E b \in Wanted, ok \in BOOLEAN :
        Fetch(b, bs, ok) /\ failed = {} /\ lab' = [k |-> "fetch", b |-> b, ok |-> ok]
MCFlush ==
    \E b \in Blocks, ok \in BOOLEAN :
        /\ failed = {}
        /\ Flush(b, View(b), ok, IF ok THEN View(b) ELSE Zeros(bs))
        /\ lab' = [k |-> "flush", b |-> b, ok |-> ok]
MCResize ==
    \E ok \in BOOLEAN :
        /\ cl.op = "Resize" /\ failed = {}
        /\ ResizeStorage(cl.n, ok, [i \in 1..(cl.n * bs) |-> IF i <= Len(img) THEN img[i] ELSE 204])
        /\ lab' = [k |-> "resize", ok |-> ok]
MCRet == \E r \in Results : Ret(r) /\ lab' = [k |-> "ret"]

Next == MCCall \/ MCFetch \/ MCFlush \/ MCResize \/ MCRet
Spec == Init /\ [][Next]_mvars

View0 == <<bs, nb, img, mem, dirty, maybe, cl, failed, sized>>

\* Prints every transition.
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> View0, l |-> lab', t |-> View0']))
=============================================================================
