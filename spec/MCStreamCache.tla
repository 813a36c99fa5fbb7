---------------------------- MODULE MCStreamCache ----------------------------
(* A bounded instance of BlockCache over a stream (C05): the stream can be  *)
(* shorter than the cache or end inside a block, writes can be cut short.   *)
EXTENDS BlockCache

CONSTANTS MaxBlocks, InitBlocks, BlockSize, MaxLen

Init ==
    \E n \in 0..MaxLen, z \in {"cb", "notsup", "forbid"} :
        InitWith("stream", z, TRUE, BlockSize, InitBlocks, [i \in 1..n |-> 100 + i])

Data(n) == [i \in 1..n |-> 1]

Calls ==
    {[op |-> "ReadAt", start |-> s, len |-> BlockSize] : s \in 0..nb}
    \cup {[op |-> "WriteAt", start |-> s, data |-> Data(n)] : s \in 0..nb, n \in 1..(BlockSize + 1)}
    \cup {[op |-> "Mark", start |-> s, count |-> 1] : s \in 0..nb}
    \cup {[op |-> "Flush"]}
    \cup {[op |-> "Resize", n |-> n] : n \in 0..MaxBlocks}

Results ==
    LET res(n, e, d) == [n |-> n, err |-> e, data |-> d]
        inj == {"injected"}
    IN  CASE Refused -> {res(0, {"range"}, IF cl.op = "ReadAt" THEN Untouched(cl.len) ELSE <<>>)}
          [] cl.op = "ReadAt" -> {res(cl.len, {}, ReadResult), res(0, inj, Untouched(cl.len))}
          [] cl.op = "WriteAt" -> {res(Len(cl.data), {}, <<>>), res(0, inj, <<>>)}
          [] cl.op = "Resize" -> {res(0, {}, <<>>), res(0, inj, <<>>), res(0, {"perm"}, <<>>), res(0, {"notsup"}, <<>>)}
          [] OTHER -> {res(0, {}, <<>>), res(0, inj, <<>>)}

MCCall == \E c \in Calls : Call(c)
MCFail == StreamFail("read") /\ failed = {} /\ cl.op # "Resize"
\* Any piece of a changed block can be written, and any part of it accepted.
MCWrite ==
    /\ failed = {}
    /\ \E b \in dirty, o \in 0..(BlockSize-1), k \in 1..BlockSize, n \in 0..BlockSize :
        /\ o + k <= BlockSize /\ n <= k
        /\ StreamWrite(b * bs + o, SubSeq(View(b), o + 1, o + k), n, n = k)
MCResize ==
    \E ok \in BOOLEAN :
        /\ cl.op = "Resize" /\ failed = {}
        /\ ResizeStorage(cl.n, ok, [i \in 1..(cl.n * bs) |-> IF i <= Len(img) THEN img[i] ELSE 0])
MCRet == \E r \in Results : Ret(r)

Next == MCCall \/ MCFail \/ MCWrite \/ MCResize \/ MCRet
Spec == Init /\ [][Next]_vars

\* Between calls, a block that isn't pending is mapped to its own bytes, and
\* bytes past the last block only change by resizing.
TailUntouched ==
    [][cl.op # "Resize" => \A i \in 1..Len(img) : (i > nb * bs => img'[i] = img[i])]_vars
PartOnlyInFlush == part # EmptyFun => cl.op = "Flush"
=============================================================================
