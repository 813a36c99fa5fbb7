------------------------------ MODULE ByteStream ------------------------------
(***************************************************************************)
(* The file-like stream over a block cache (common/basicstream),           *)
(* properties C06 - C09.                                                   *)
(*                                                                         *)
(* A stream is a flat sequence of bytes `f` with a cursor `pos`.  Below it *)
(* is storage `img`, accessed in blocks of `bs` bytes.  The specification  *)
(* doesn't say when blocks are loaded or saved, only that the storage      *)
(* holds `f` when it has to, and that no byte of the file ever reaches the *)
(* storage with a value it never had.  Bytes of a block beyond the end of  *)
(* the file ("slack") are free.                                            *)
(*                                                                         *)
(* Integers of at least Big in magnitude were clamped; arithmetic with     *)
(* them isn't specified except that it can't corrupt anything.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    fl,      \* open flags: [r, w, a(ppend), s(ync)]
    bs,      \* bytes per block
    cap,     \* the most blocks the storage can have
    f,       \* content of the file
    pos,     \* cursor
    img,     \* the storage
    cl,      \* the call being executed; op = "none" between calls
    failed,  \* callbacks that failed during this call
    got,     \* what the other side of a bulk copy delivered in this call
    src,     \* how the source of a bulk copy ended: "open", "eof", "error"
    acc,     \* number of bytes that the target of a bulk copy accepted
    cut,     \* Truncate: the storage was shrunk
    size     \* size recorded in the storage by this call, or -1

vars == <<fl, bs, cap, f, pos, img, cl, failed, got, src, acc, cut, size>>

Big == 536870912
IsBig(x) == x >= Big \/ x <= -Big

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* The size of n blocks; beyond the storage's capacity it doesn't matter.
Bytes(n) == IF n > cap THEN Big ELSE n * bs

Idle == cl.op = "none"

-----------------------------------------------------------------------------
(* Contents                                                                *)

Zeros(n) == [i \in 1..n |-> 0]

\* `base` after writing `data` at byte offset `off`; gaps are zeros.
Overlay(base, off, data) ==
    IF data = <<>> THEN base
    ELSE SubSeq(base, 1, Min2(off, Len(base))) \o Zeros(Max2(0, off - Len(base))) \o data
         \o SubSeq(base, off + Len(data) + 1, Len(base))

Resized(base, n) == SubSeq(base, 1, Min2(n, Len(base))) \o Zeros(Max2(0, n - Len(base)))

Prefix(seq, n) == SubSeq(seq, 1, n)

WriteOps == {"Write", "WriteAt", "WriteString"}
ReadOps == {"Read", "ReadAt"}

\* Where the data of the current call goes to or comes from.
Offset ==
    CASE cl.op \in {"WriteAt", "ReadAt"} -> cl.off
      [] cl.op \in {"Write", "WriteString", "ReadFrom"} -> IF fl.a THEN Len(f) ELSE pos
      [] OTHER -> pos

\* The content if the current call succeeds (so far).
Target ==
    CASE cl.op \in WriteOps -> IF Offset < 0 \/ IsBig(Offset) THEN f ELSE Overlay(f, Offset, cl.data)
      [] cl.op = "ReadFrom" -> IF IsBig(Offset) THEN f ELSE Overlay(f, Offset, got)
      [] cl.op = "Truncate" -> IF cl.size < 0 \/ IsBig(cl.size) THEN f ELSE Resized(f, cl.size)
      [] OTHER -> f

\* C08: the storage holds exactly the bytes of `content`.
OnStorage(image, content) ==
    Len(image) >= Len(content) /\ Prefix(image, Len(content)) = content

-----------------------------------------------------------------------------
(* Calls and callbacks                                                     *)

Call(c) ==
    /\ Idle
    /\ cl' = c
    /\ failed' = {} /\ got' = <<>> /\ src' = "open" /\ acc' = 0 /\ cut' = FALSE /\ size' = -1
    /\ UNCHANGED <<fl, bs, cap, f, pos, img>>

Blocks == Len(img) \div bs

Fetch(b, len, ok) ==
    /\ ~Idle
    /\ b \in 0..(Blocks - 1) /\ len = bs
    /\ failed' = IF ok THEN failed ELSE failed \cup {"fetch"}
    /\ UNCHANGED <<fl, bs, cap, f, pos, img, cl, got, src, acc, cut, size>>

\* A byte of the file may only be stored with a value that it has or gets.
StorableByte(T, lenT, g, v) ==
    \/ g > Len(f) /\ g > lenT
    \/ g <= lenT /\ v = T[g]
    \/ g <= Len(f) /\ v = f[g]
    \/ cl.op = "ReadFrom" /\ g > Len(f)

Flush(b, data, ok, after) ==
    /\ ~Idle
    /\ b \in 0..(Blocks - 1) /\ Len(data) = bs
    \* (Comparing with TRUE has TLC evaluate this as a value, without recursion.)
    /\ TRUE = IF fl.w
              THEN LET T == Target  lenT == Len(T)
                   IN  \A i \in 1..bs : StorableByte(T, lenT, b*bs + i, data[i])
              ELSE data = SubSeq(img, b*bs + 1, b*bs + bs)     \* C07
    /\ img' = SubSeq(img, 1, b*bs) \o after \o SubSeq(img, b*bs + bs + 1, Len(img))
    /\ failed' = IF ok THEN failed ELSE failed \cup {"flush"}
    /\ UNCHANGED <<fl, bs, cap, f, pos, cl, got, src, acc, cut, size>>

ResizeStorage(n, ok, newImg) ==
    /\ ~Idle
    /\ fl.w                                              \* C07
    \* never drop a part of the file, except when truncating it
    /\ \/ Bytes(n) >= Len(f)
       \/ cl.op = "Truncate" /\ cl.size >= 0 /\ Bytes(n) >= cl.size
    /\ IF ok THEN img' = newImg /\ cut' = (cut \/ Bytes(n) < Len(f)) /\ UNCHANGED failed
             ELSE failed' = failed \cup {"resize"} /\ UNCHANGED <<img, cut>>
    /\ UNCHANGED <<fl, bs, cap, f, pos, cl, got, src, acc, size>>

\* The exact size is recorded in the storage.
SetSize(n, ok) ==
    /\ ~Idle
    /\ n \in {Len(f), Len(Target)} \/ cl.op = "ReadFrom"
    /\ size' = IF ok THEN n ELSE -1
    /\ failed' = IF ok THEN failed ELSE failed \cup {"setsize"}
    /\ UNCHANGED <<fl, bs, cap, f, pos, img, cl, got, src, acc, cut>>

\* The source of a bulk copy is read from.
SourceRead(data, end) ==
    /\ cl.op = "ReadFrom"
    /\ src = "open"
    /\ got' = got \o data
    /\ src' = end
    /\ UNCHANGED <<fl, bs, cap, f, pos, img, cl, failed, acc, cut, size>>

\* The target of a bulk copy is written to, and accepted n bytes.
TargetWrite(data, n, ok) ==
    /\ cl.op = "WriteTo"
    /\ data = SubSeq(f, pos + acc + 1, pos + acc + Len(data))
    /\ acc' = acc + n
    /\ src' = IF ok /\ n = Len(data) THEN src ELSE "error"
    /\ failed' = IF ok THEN failed ELSE failed \cup {"target"}
    /\ UNCHANGED <<fl, bs, cap, f, pos, img, cl, got, cut, size>>

-----------------------------------------------------------------------------
(* Returns: a result is [n, err, data, size, pos]                          *)

Success(r) == r.err = {}
Injected(r) == failed # {} /\ "injected" \in r.err
Perm(r) == "perm" \in r.err
Failure(r) == r.err # {}

Keep(r) == f' = f /\ r.size = Len(f)
StayAt(r, p) == pos' = p /\ r.pos = p
NoEffect(r) == Keep(r) /\ StayAt(r, pos)

RetRead(r) ==
    /\ cl.op \in ReadOps
    /\ Keep(r)
    /\ LET off == Offset
           avail == IF off < 0 \/ off > Len(f) THEN 0 ELSE Len(f) - off
           want == Min2(cl.len, avail)
       IN  \/ ~fl.r /\ Perm(r) /\ r.n = 0 /\ StayAt(r, pos)
           \/ off < 0 /\ Failure(r) /\ r.n = 0 /\ StayAt(r, pos)
           \/ fl.r /\ Injected(r) /\ r.n = 0 /\ StayAt(r, pos)
           \/ /\ fl.r /\ off >= 0
              /\ r.n = want
              /\ r.data = SubSeq(f, off + 1, off + want)
              /\ \/ Success(r) /\ (cl.op = "Read" => (want > 0 \/ cl.len = 0))
                                /\ (cl.op = "ReadAt" => want = cl.len)
                 \/ "eof" \in r.err /\ off + cl.len >= Len(f)
              /\ StayAt(r, IF cl.op = "Read" THEN pos + want ELSE pos)
           \/ /\ fl.r /\ off < 0 /\ cl.len = 0 /\ Success(r) /\ r.n = 0 /\ StayAt(r, pos)

\* Where a sequential write leaves the cursor
AfterWrite(r, n) ==
    IF cl.op = "WriteAt" THEN StayAt(r, pos)
    ELSE IF n = 0 THEN (StayAt(r, pos) \/ (fl.a /\ StayAt(r, Len(f))))
    ELSE StayAt(r, Offset + n)

RetWrite(r) ==
    /\ cl.op \in WriteOps
    /\ LET len == Len(cl.data)
           off == Offset
           impossible == off < 0 \/ off + len > cap * bs
       IN  \/ ~fl.w /\ Perm(r) /\ r.n = 0 /\ NoEffect(r)
           \/ fl.a /\ cl.op = "WriteAt" /\ Perm(r) /\ r.n = 0 /\ NoEffect(r)
           \/ /\ impossible /\ fl.w /\ Failure(r) /\ r.n = 0
              /\ Keep(r) /\ AfterWrite(r, 0)
           \/ /\ fl.w /\ ~(fl.a /\ cl.op = "WriteAt") /\ off >= 0 /\ (len = 0 \/ ~impossible)
              /\ r.n \in 0..len
              /\ \/ Success(r) /\ r.n = len
                 \/ Injected(r)
              /\ f' = Overlay(f, IF len = 0 THEN 0 ELSE off, Prefix(cl.data, r.n))
              /\ r.size = Len(f')
              /\ AfterWrite(r, r.n)
              /\ (Success(r) /\ fl.s /\ len > 0) => OnStorage(img, f')   \* C08

RetTruncate(r) ==
    /\ cl.op = "Truncate"
    /\ StayAt(r, pos)
    /\ \/ ~fl.w /\ Perm(r) /\ Keep(r)
       \/ (cl.size < 0 \/ cl.size > cap * bs) /\ fl.w /\ Failure(r) /\ Keep(r)
       \/ /\ fl.w /\ cl.size >= 0 /\ cl.size <= cap * bs
          /\ \/ /\ Success(r)
                /\ f' = Target /\ r.size = Len(f')
                /\ fl.s => OnStorage(img, f')
             \/ /\ Injected(r)
                \* The size tells whether it was truncated before the failure.
                /\ r.size \in {Len(f), cl.size}
                /\ cut => r.size = cl.size
                /\ f' = IF r.size = Len(f) THEN f ELSE Target

RetSeek(r) ==
    /\ cl.op = "Seek"
    /\ Keep(r)
    /\ LET base == CASE cl.whence = 0 -> 0 [] cl.whence = 1 -> pos [] OTHER -> Len(f)
           to == base + cl.off
       IN  \/ Failure(r) /\ (cl.whence \notin 0..2 \/ to < 0) /\ StayAt(r, pos)
           \/ /\ (IsBig(base) \/ IsBig(cl.off)) /\ cl.whence \in 0..2
              /\ \/ Failure(r) /\ StayAt(r, pos)
                 \/ Success(r) /\ r.n >= 0 /\ StayAt(r, r.n)
           \/ /\ cl.whence \in 0..2 /\ to >= 0 /\ ~IsBig(base) /\ ~IsBig(cl.off)
              /\ Success(r) /\ r.n = to /\ StayAt(r, to)

RetTell(r) == cl.op = "Tell" /\ r.n = pos /\ NoEffect(r)
RetSize(r) == cl.op = "Size" /\ r.n = Len(f) /\ NoEffect(r)

RetSync(r) ==
    /\ cl.op \in {"Sync", "Close"}
    /\ NoEffect(r)
    /\ \/ Success(r) /\ OnStorage(img, f) /\ (cl.cb => size = Len(f))
       \/ Injected(r)

\* C09: filling the stream from a reader
RetReadFrom(r) ==
    /\ cl.op = "ReadFrom"
    /\ \/ ~fl.w /\ Perm(r) /\ r.n = 0 /\ NoEffect(r)
       \/ /\ fl.w
          /\ LET off == Offset
                 total == Len(got)
                 impossible == off + total > cap * bs
                 moved == IF fl.a THEN r.size - Len(f) ELSE r.pos - pos
             IN  \* Success means that the source had ended and everything is in the stream.
                 \/ /\ Success(r) /\ src = "eof" /\ r.n = total
                    /\ (total > 0 => ~impossible)
                    /\ f' = Target /\ r.size = Len(f')
                    /\ pos' = r.pos
                    /\ IF total = 0 THEN r.pos \in ({pos} \cup (IF fl.a THEN {Len(f)} ELSE {}))
                       ELSE r.pos = off + total
                    /\ (fl.s /\ total > 0) => OnStorage(img, f')
                 \/ /\ \/ src = "error" /\ "source" \in r.err
                       \/ Injected(r)
                       \/ impossible /\ Failure(r)
                    /\ IF moved = 0 THEN f' = f
                       ELSE moved \in 1..total /\ f' = Overlay(f, off, Prefix(got, moved))
                    /\ r.n <= moved \/ (moved = 0 /\ r.n = 0)
                    /\ r.n >= 0
                    /\ r.size = Len(f')
                    /\ pos' = r.pos
                    /\ IF moved = 0 THEN r.pos \in ({pos} \cup (IF fl.a THEN {Len(f)} ELSE {}))
                       ELSE r.pos = off + moved

\* C09: copying the stream into a writer
RetWriteTo(r) ==
    /\ cl.op = "WriteTo"
    /\ Keep(r)
    /\ \/ ~fl.r /\ Perm(r) /\ r.n = 0 /\ StayAt(r, pos)
       \/ /\ fl.r
          /\ LET left == Max2(0, Len(f) - pos)
             IN  \/ /\ Success(r) /\ src = "open" /\ acc = left /\ r.n = left
                    /\ StayAt(r, pos + left)
                 \/ /\ \/ src = "error" /\ Failure(r) /\ (failed # {} => "injected" \in r.err)
                       \/ Injected(r)
                    /\ r.n \in 0..acc
                    /\ r.pos >= pos + r.n /\ r.pos <= Max2(pos, Len(f))
                    /\ pos' = r.pos

Ret(r) ==
    /\ ~Idle
    /\ \/ RetRead(r) \/ RetWrite(r) \/ RetTruncate(r) \/ RetSeek(r) \/ RetTell(r)
       \/ RetSize(r) \/ RetSync(r) \/ RetReadFrom(r) \/ RetWriteTo(r)
    /\ cl' = [op |-> "none"]
    /\ failed' = {} /\ got' = <<>> /\ src' = "open" /\ acc' = 0 /\ cut' = FALSE /\ size' = -1
    /\ UNCHANGED <<fl, bs, cap, img>>

-----------------------------------------------------------------------------
(* Opening: the content is the first `n` bytes of the storage, or nothing  *)
(* if the stream is opened with the truncate flag.                         *)

StartOpen(flags, n, trunc) ==
    /\ Idle
    /\ cl' = [op |-> IF trunc THEN "Truncate" ELSE "Open", size |-> IF trunc THEN 0 ELSE n]
    /\ fl' = flags
    \* an impossible size is refused, so it doesn't matter what the content is
    /\ f' = IF n < 0 \/ n > Len(img) THEN <<>> ELSE Prefix(img, n)
    /\ pos' = 0
    /\ failed' = {} /\ got' = <<>> /\ src' = "open" /\ acc' = 0 /\ cut' = FALSE /\ size' = -1
    /\ UNCHANGED <<bs, cap, img>>

\* How opening ended.  `valid` tells whether the size was possible.
Opened(valid, trunc, r) ==
    /\ ~Idle
    /\ \/ ~valid /\ Failure(r)
       \/ /\ valid
          /\ IF trunc
             THEN \/ ~fl.w /\ Perm(r)
                  \/ fl.w /\ Success(r) /\ r.size = 0
                  \/ fl.w /\ Injected(r)
             ELSE Success(r) /\ r.size = Len(f)
          /\ Success(r) => r.pos = 0
    /\ f' = IF trunc /\ Success(r) THEN <<>> ELSE f
    /\ (trunc /\ Success(r) /\ fl.s) => OnStorage(img, <<>>)
    /\ cl' = [op |-> "none"]
    /\ failed' = {} /\ got' = <<>> /\ src' = "open" /\ acc' = 0 /\ cut' = FALSE /\ size' = -1
    /\ UNCHANGED <<fl, bs, cap, pos, img>>

InitWith(blockSize, capacity, image) ==
    /\ fl = [r |-> FALSE, w |-> FALSE, a |-> FALSE, s |-> FALSE]
    /\ bs = blockSize /\ cap = capacity /\ img = image
    /\ f = <<>> /\ pos = 0
    /\ cl = [op |-> "none"] /\ failed = {} /\ got = <<>> /\ src = "open" /\ acc = 0
    /\ cut = FALSE /\ size = -1

-----------------------------------------------------------------------------
(* Properties of the design                                                *)

TypeOK ==
    /\ Len(img) % bs = 0
    /\ pos >= 0
    /\ src \in {"open", "eof", "error"}

\* C07
ReadOnlyIsInert == [][(~Idle /\ ~fl.w) => (img' = img /\ f' = f)]_vars
\* C06: content only changes through writes and truncations, and what wasn't
\* written or cut off stays as it was.
ContentStable ==
    [][(~Idle /\ cl.op \notin WriteOps \cup {"Truncate", "ReadFrom", "Open"}) => f' = f]_vars
\* C06: growing never reveals anything but zeros
GrowthIsZero ==
    [][(cl.op = "Truncate" /\ Len(f') > Len(f)) =>
         \A i \in (Len(f)+1)..Len(f') : f'[i] = 0]_vars
\* C06: a write changes nothing outside of what was written
WriteIsLocal ==
    [][(cl.op \in WriteOps /\ f' # f) =>
         /\ Len(f') >= Len(f)
         /\ \A i \in 1..Len(f) : (i <= Offset \/ i > Offset + Len(cl.data)) => f'[i] = f[i]]_vars
\* C07: appending never overwrites
AppendOnly ==
    [][(fl.a /\ cl.op \in WriteOps \cup {"ReadFrom"}) => Prefix(f', Len(f)) = f]_vars
=============================================================================
