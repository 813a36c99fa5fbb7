---------------------------- MODULE MCByteStream ----------------------------
(* Bounded instances of ByteStream that TLC explores exhaustively, each     *)
(* concentrating on one aspect:                                            *)
(*   plain  reading, writing, seeking, truncating                          *)
(*   modes  the same operations on streams opened with every mode          *)
(*   sync   saving, with failing storage callbacks                         *)
(*   copy   bulk copies, with failing sources, targets and storage         *)
EXTENDS ByteStream, Json

CONSTANTS Mode, BlockSize, InitBlocks, Cap, Emitting

VARIABLES lab, opening
mvars == <<vars, lab, opening>>

Init ==
    /\ InitWith(BlockSize, Cap, [i \in 1..(BlockSize * InitBlocks) |-> 100 + i])
    /\ lab = [k |-> "init"]
    /\ opening = "closed"

Flags(m, a, s) == [r |-> m # "w", w |-> m # "r", a |-> a, s |-> s]
OpenFlags ==
    CASE Mode = "plain" -> {Flags("rw", FALSE, FALSE)}
      [] Mode = "modes" -> {Flags(m, a, s) : m \in {"r", "w", "rw"}, a \in BOOLEAN, s \in BOOLEAN}
      [] Mode = "sync"  -> {Flags("rw", FALSE, TRUE), Flags("rw", FALSE, FALSE)}
      [] OTHER          -> {Flags("rw", FALSE, FALSE), Flags("rw", TRUE, FALSE)}

Room == Cap * BlockSize
Datas == IF Mode = "plain" THEN {<<>>, <<1>>, <<1, 1, 1>>} ELSE {<<1>>, <<1, 1, 1>>}
Offs == CASE Mode = "plain" -> -1..Room [] Mode = "modes" -> {1, 3} [] OTHER -> {0, Room - 1}
Sizes == CASE Mode = "plain" -> -1..Room [] Mode = "modes" -> {0, 3} [] OTHER -> {1, 2}

Calls ==
    LET reads == {[op |-> "Read", len |-> k] : k \in {1, BlockSize + 1}}
                 \cup {[op |-> "ReadAt", len |-> 2, off |-> o] : o \in Offs}
        writes == {[op |-> "Write", data |-> d] : d \in Datas}
                  \cup {[op |-> "WriteAt", data |-> d, off |-> o] : d \in Datas, o \in Offs}
        truncs == {[op |-> "Truncate", size |-> n] : n \in Sizes}
        seeks == {[op |-> "Seek", whence |-> w, off |-> o] :
                    w \in 0..2, o \in CASE Mode = "plain" -> {-1, 0, 2} [] OTHER -> {0, 1}}
        syncs == {[op |-> "Sync", cb |-> FALSE]}
        copies == {[op |-> "ReadFrom"], [op |-> "WriteTo"]}
    IN  CASE Mode = "plain" -> reads \cup writes \cup truncs \cup seeks
          [] Mode = "modes" -> reads \cup writes \cup truncs \cup copies
                               \cup {[op |-> "Seek", whence |-> 0, off |-> 1]}
          [] Mode = "sync"  -> {[op |-> "Write", data |-> <<1>>]} \cup truncs \cup syncs
                               \cup {[op |-> "WriteAt", data |-> <<1, 1>>, off |-> o] : o \in {1, 2}}
          [] OTHER          -> copies \cup {[op |-> "Seek", whence |-> 0, off |-> o] : o \in 0..Room}

MCCall ==
    /\ opening = "open" /\ pos <= Room
    /\ \E c \in Calls : Call(c) /\ lab' = [k |-> "call", c |-> c]
    /\ UNCHANGED opening

MCOpen ==
    /\ opening = "closed"
    /\ \E fls \in OpenFlags, n \in {0, 1, BlockSize * InitBlocks} :
        /\ StartOpen(fls, n, FALSE)
        /\ lab' = [k |-> "open", fl |-> fls, size |-> n]
    /\ opening' = "opening"

MCOpened ==
    /\ opening = "opening"
    /\ Opened(TRUE, FALSE, [n |-> 0, err |-> {}, data |-> <<>>, size |-> Len(f), pos |-> 0])
    /\ lab' = [k |-> "opened"]
    /\ opening' = "open"

Faults == Mode \in {"sync", "copy"} /\ failed = {}

MCFetch ==
    /\ Mode = "copy" /\ failed = {} /\ cl.op \in {"ReadFrom", "WriteTo"}
    /\ \E b \in 0..(Blocks-1) : Fetch(b, bs, FALSE) /\ lab' = [k |-> "fetch", b |-> b, ok |-> FALSE]
    /\ UNCHANGED opening

\* Blocks are saved when syncing, and as part of writes to synchronous streams.
MCFlush ==
    /\ Mode = "sync" /\ failed = {}
    /\ cl.op \in {"Sync"} \/ fl.s
    /\ Len(Target) <= Len(img)
    /\ \E b \in 0..(Blocks-1), ok \in BOOLEAN :
        LET data == [i \in 1..bs |-> IF b*bs + i <= Len(Target) THEN Target[b*bs + i] ELSE img[b*bs + i]]
        IN  /\ data # SubSeq(img, b*bs + 1, b*bs + bs)
            /\ Flush(b, data, ok, IF ok THEN data ELSE SubSeq(img, b*bs + 1, b*bs + bs))
            /\ lab' = [k |-> "flush", b |-> b, ok |-> ok]
    /\ UNCHANGED opening

Needed == (Len(Target) + bs - 1) \div bs
MCResize ==
    /\ Mode = "sync" /\ failed = {}
    /\ cl.op \in WriteOps \cup {"Truncate"}
    /\ Needed <= Cap /\ Needed # Blocks
    /\ \E ok \in BOOLEAN :
        /\ ResizeStorage(Needed, ok, [i \in 1..(Needed * bs) |-> IF i <= Len(img) THEN img[i] ELSE 204])
        /\ lab' = [k |-> "resize", ok |-> ok]
    /\ UNCHANGED opening

MCSource ==
    /\ Len(got) <= 2
    /\ \E d \in {<<>>, <<1>>, <<1, 1>>}, end \in {"open", "eof", "error"} :
        /\ d = <<>> => end # "open"
        /\ SourceRead(d, end)
        /\ lab' = [k |-> "rread", data |-> d, end |-> end]
    /\ UNCHANGED opening

MCTarget ==
    /\ src = "open"
    /\ pos < Len(f)
    /\ \E n \in 0..(Len(f) - pos), ok \in BOOLEAN :
        /\ acc = 0
        /\ n = Len(f) - pos => ok
        /\ TargetWrite(SubSeq(f, pos + 1, Len(f)), n, ok)
        /\ lab' = [k |-> "wwrite", ok |-> (n = Len(f) - pos), limit |-> n]
    /\ UNCHANGED opening

MCRet ==
    /\ opening = "open"
    /\ \E n \in 0..(Room + 1),
          e \in {{}, {"perm"}} \cup (IF failed # {} THEN {{"injected"}} ELSE {})
                 \cup (IF cl.op \in ReadOps THEN {{"eof"}} ELSE {})
                 \cup (IF cl.op = "ReadFrom" THEN {{"source"}} ELSE {}),
          p \in {pos} \cup 0..(Room + 1),
          z \in {Len(f), Len(Target)} \cup (IF cl.op = "ReadFrom" THEN 0..Room ELSE {}) :
        Ret([n |-> n, err |-> e, size |-> z, pos |-> p,
             data |-> IF cl.op \in ReadOps /\ Offset >= 0 THEN SubSeq(f, Offset + 1, Min2(Len(f), Offset + cl.len)) ELSE <<>>])
    /\ lab' = [k |-> "ret"]
    /\ UNCHANGED opening

Next == MCOpen \/ MCOpened \/ MCCall \/ MCFetch \/ MCFlush \/ MCResize \/ MCSource \/ MCTarget \/ MCRet
Spec == Init /\ [][Next]_mvars

View0 == <<fl, f, pos, img, cl, failed, got, src, acc, cut, opening>>
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> View0, l |-> lab', t |-> View0']))

\* A correct implementation always has an answer: the design isn't contradictory.
Answerable == (opening = "open" /\ ~Idle /\ cl.op \notin {"ReadFrom", "WriteTo", "Sync", "Close"} /\ ~fl.s /\ ~cut) => ENABLED MCRet
=============================================================================
