------------------------------ MODULE BlockCache ------------------------------
(***************************************************************************)
(* The block cache (file_systems/common/blockcache), properties C01 - C05. *)
(*                                                                         *)
(* A cache presents `nb` blocks of `bs` bytes.  Its backing storage `img`  *)
(* is an array of bytes; block b lives at bytes b*bs .. (b+1)*bs-1 of it   *)
(* (0-based).  There are two kinds of storage:                             *)
(*                                                                         *)
(*   callback storage  accessed a block at a time (fetch/flush/resize)     *)
(*   stream storage    a seekable stream of bytes; it can be shorter or    *)
(*                     longer than the cache, is written in pieces, and    *)
(*                     bytes past its end read as zeros                    *)
(*                                                                         *)
(* The specification says what the cache must remember and nothing about   *)
(* when it loads clean blocks: fetching is free as long as it can't lose   *)
(* a change.  Every public method is a Call, any number of storage         *)
(* callbacks, and a Ret whose result is constrained by the state.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    kind,   \* "cb" (callback storage), "stream", or "slice" (of bytes)
    rz,     \* how resizing is set up: "cb" (works), "nil"/"notsup", "forbid"
    grow,   \* stream storage: writing past the end extends it
    bs,     \* bytes per block
    nb,     \* number of blocks in the cache
    img,    \* bytes of the backing storage
    mem,    \* [block -> content]: content that's only in the cache
    dirty,  \* blocks that must be saved by the next flush
    maybe,  \* blocks in mem that a flush may, but needn't save
    part,   \* stream storage: [block -> bytes saved so far by this flush]
    cl,     \* the call being executed; op = "none" between calls
    failed, \* what failed during this call: subset of {"fetch", ...}
    sized   \* new size in blocks accepted by the storage in this call, or -1

vars == <<kind, rz, grow, bs, nb, img, mem, dirty, maybe, part, cl, failed, sized>>

-----------------------------------------------------------------------------
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
EmptyFun == [x \in {} |-> <<>>]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

Blocks == 0..(nb-1)
IdleCall == [op |-> "none"]
Idle == cl.op = "none"

\* The bytes of block b in the storage.
Stored(b) ==
    [i \in 1..bs |-> IF b*bs + i <= Len(img) THEN img[b*bs + i] ELSE 0]

\* What reading block b through the cache returns.
View(b) == IF b \in DOMAIN mem THEN mem[b] ELSE Stored(b)

\* The concatenation of `count` blocks from `start`, as one sequence of bytes.
ViewRange(start, count) ==
    LET v == [b \in start..(start + count - 1) |-> View(b)]
    IN  [i \in 1..(count * bs) |-> v[start + (i-1) \div bs][((i-1) % bs) + 1]]

MinBlocks(size) == (size \div bs) + (IF size % bs = 0 THEN 0 ELSE 1)

InRange(start, count) == start < nb /\ count <= nb - start
\* An empty range at the very end is neither required nor forbidden.
Vacuous(start, count) == start = nb /\ count = 0

Range(start, count) == start..(start + count - 1)

-----------------------------------------------------------------------------
(* Calls                                                                   *)

Call(c) ==
    /\ Idle
    /\ cl' = c
    /\ failed' = {}
    /\ sized' = -1
    /\ part' = EmptyFun
    /\ UNCHANGED <<kind, rz, grow, bs, nb, img, mem, dirty, maybe>>

\* Whether the range of blocks the current call is about is refused.
RangeArgs ==
    CASE cl.op = "ReadAt"      -> <<cl.start, MinBlocks(cl.len)>>
      [] cl.op = "WriteAt"     -> <<cl.start, MinBlocks(Len(cl.data))>>
      [] cl.op = "GetSlice"    -> <<cl.start, cl.count>>
      [] cl.op = "Mark"        -> <<cl.start, cl.count>>
      [] cl.op = "CheckBounds" -> <<cl.start, MinBlocks(cl.len)>>
      [] OTHER                 -> <<0, nb>>
Ranged == cl.op \in {"ReadAt", "WriteAt", "GetSlice", "Mark", "CheckBounds"}
Refused == Ranged /\ ~InRange(RangeArgs[1], RangeArgs[2]) /\ ~Vacuous(RangeArgs[1], RangeArgs[2])
Unspecified == Ranged /\ Vacuous(RangeArgs[1], RangeArgs[2])

-----------------------------------------------------------------------------
(* Storage callbacks, which can happen during any call that isn't refused. *)

\* C03: only blocks inside the cache, only buffers of one block.
\* C01: content that's only in the cache is never overwritten by loading.
Fetch(b, len, ok) ==
    /\ ~Idle /\ ~Refused
    /\ b \in Blocks
    /\ len = bs
    /\ b \notin DOMAIN mem
    /\ failed' = IF ok THEN failed ELSE failed \cup {"fetch"}
    /\ UNCHANGED <<kind, rz, grow, bs, nb, img, mem, dirty, maybe, part, cl, sized>>

\* C02: only changed blocks are written, with the cache's content.
Flush(b, data, ok, after) ==
    /\ cl.op = "Flush"
    /\ b \in Blocks
    /\ b \in dirty \cup maybe
    /\ data = View(b)
    /\ Len(after) = bs
    /\ ok => after = data
    /\ img' = [i \in 1..Len(img) |->
                  IF (i-1) \div bs = b THEN after[((i-1) % bs) + 1] ELSE img[i]]
    /\ IF ok
       THEN /\ mem' = Restrict(mem, DOMAIN mem \ {b})
            /\ dirty' = dirty \ {b}
            /\ maybe' = maybe \ {b}
            /\ UNCHANGED failed
       ELSE /\ failed' = failed \cup {"flush"}
            \* What the storage holds now isn't what the cache holds.
            /\ mem' = [x \in DOMAIN mem \cup {b} |-> View(x)]
            /\ UNCHANGED <<dirty, maybe>>
    /\ UNCHANGED <<kind, rz, grow, bs, nb, part, cl, sized>>

\* Stream storage: `n` bytes of `data` were written at byte `off`.
StreamWrite(off, data, n, ok) ==
    LET touched == {(off + i - 1) \div bs : i \in 1..Len(data)}
        newLen  == IF n > 0 THEN Max2(Len(img), off + n) ELSE Len(img)
        written(b) == {o \in 0..(bs-1) : b*bs + o >= off /\ b*bs + o < off + n}
        sofar(b) == written(b) \cup (IF b \in DOMAIN part THEN part[b] ELSE {})
        done == {b \in touched : sofar(b) = 0..(bs-1)}
    IN  /\ kind = "stream"
        /\ cl.op = "Flush"
        /\ touched \subseteq Blocks
        /\ touched \subseteq (dirty \cup maybe)
        /\ \A i \in 1..Len(data) :
              data[i] = View((off + i - 1) \div bs)[((off + i - 1) % bs) + 1]
        /\ img' = [i \in 1..newLen |->
                      IF i > off /\ i <= off + n THEN data[i - off]
                      ELSE IF i <= Len(img) THEN img[i] ELSE 0]
        /\ part' = [b \in (DOMAIN part \cup touched) \ done |->
                      IF b \in touched THEN sofar(b) ELSE part[b]]
        \* A block is saved once all of it was written.
        /\ mem' = [b \in (DOMAIN mem \cup touched) \ done |-> View(b)]
        /\ dirty' = dirty \ done
        /\ maybe' = maybe \ done
        /\ failed' = IF ok THEN failed ELSE failed \cup {"swrite"}
        /\ UNCHANGED <<kind, rz, grow, bs, nb, cl, sized>>

\* Reading from or seeking in the stream failed.
StreamFail(what) ==
    /\ kind = "stream"
    /\ ~Idle /\ ~Refused
    /\ failed' = failed \cup {what}
    /\ UNCHANGED <<kind, rz, grow, bs, nb, img, mem, dirty, maybe, part, cl, sized>>

\* The storage is asked to hold n blocks.
ResizeStorage(n, ok, newImg) ==
    /\ cl.op = "Resize"
    /\ rz = "cb"
    /\ n = cl.n
    /\ sized = -1
    /\ IF ok
       THEN /\ Len(newImg) = n * bs
            /\ \A i \in 1..Min2(Len(img), Len(newImg)) : newImg[i] = img[i]
            /\ img' = newImg
            /\ sized' = n
            /\ UNCHANGED failed
       ELSE /\ failed' = failed \cup {"resize"}
            /\ UNCHANGED <<img, sized>>
    /\ UNCHANGED <<kind, rz, grow, bs, nb, mem, dirty, maybe, part, cl>>

-----------------------------------------------------------------------------
(* Returns.  A result is [n, err, data]; err is the set of known errors    *)
(* that the returned error matches, {} being success.                      *)

Success(r) == r.err = {}

\* A call that doesn't succeed must say why: either its arguments were out
\* of range, or a callback failed, or resizing isn't possible.
StorageFailure(r) == failed # {} /\ "injected" \in r.err

\* The data that a successful call delivers into a buffer of cl.len bytes.
ReadResult ==
    LET v == ViewRange(cl.start, MinBlocks(cl.len)) IN SubSeq(v, 1, cl.len)

Untouched(len) == [i \in 1..len |-> 238]

\* The content of block b after writing cl.data at block cl.start.
AfterWrite(b, accepted) ==
    LET off == (b - cl.start) * bs
        old == View(b)
    IN  [i \in 1..bs |-> IF off + i <= accepted THEN cl.data[off + i] ELSE old[i]]

\* The blocks touched by the first `accepted` bytes of a write.
WriteBlocks(accepted) == Range(cl.start, MinBlocks(accepted))

Done == cl' = IdleCall /\ failed' = {} /\ sized' = -1 /\ part' = EmptyFun
Same == UNCHANGED <<nb, mem, dirty, maybe>>

RetRefused(r) ==
    /\ Refused \/ Unspecified
    /\ "range" \in r.err
    /\ r.n = 0
    /\ cl.op = "ReadAt" => r.data = Untouched(cl.len)
    /\ Same

RetReadAt(r) ==
    /\ cl.op = "ReadAt" /\ ~Refused
    /\ \/ /\ Success(r)
          /\ r.n = cl.len
          /\ r.data = (IF cl.len = 0 THEN <<>> ELSE ReadResult)
       \/ /\ StorageFailure(r)
          \* the number of bytes returned is the number of bytes delivered
          /\ r.n \in 0..cl.len
          /\ SubSeq(r.data, 1, r.n) = SubSeq(ReadResult, 1, r.n)
    /\ Same

RetWriteAt(r) ==
    /\ cl.op = "WriteAt" /\ ~Refused
    /\ \/ Success(r) /\ r.n = Len(cl.data)
       \/ StorageFailure(r) /\ r.n \in 0..Len(cl.data)
    /\ LET W == IF r.n = 0 THEN {} ELSE WriteBlocks(r.n)
       IN  /\ mem' = [b \in DOMAIN mem \cup W |->
                         IF b \in W THEN AfterWrite(b, r.n) ELSE mem[b]]
           /\ dirty' = dirty \cup W
           /\ maybe' = maybe \ W
    /\ UNCHANGED nb

RetGetSlice(r) ==
    /\ cl.op = "GetSlice" /\ ~Refused
    /\ \/ Success(r) /\ r.data = (IF cl.count = 0 THEN <<>> ELSE ViewRange(cl.start, cl.count))
       \/ StorageFailure(r)
    /\ Same

RetData(r) ==
    /\ cl.op = "Data"
    /\ \/ Success(r) /\ r.data = ViewRange(0, nb)
       \/ StorageFailure(r)
    /\ Same

RetLoadAll(r) ==
    /\ cl.op = "LoadAll"
    /\ Success(r) \/ StorageFailure(r)
    /\ Same

RetMark(r) ==
    /\ cl.op = "Mark" /\ ~Refused
    /\ LET W == Range(cl.start, cl.count) IN
       \/ /\ Success(r)
          /\ mem' = [b \in DOMAIN mem \cup W |-> View(b)]
          /\ dirty' = dirty \cup W
          /\ maybe' = maybe \ W
       \/ /\ StorageFailure(r)
          \* Some of the range may have been marked.  What isn't in memory
          \* still has to be loaded before it can be written.
          /\ maybe' = maybe \cup (W \ dirty)
          /\ UNCHANGED <<mem, dirty>>
    /\ UNCHANGED nb

\* C02: success means that nothing is left to be saved.
RetFlush(r) ==
    /\ cl.op = "Flush" /\ kind # "slice"
    /\ \/ Success(r) /\ dirty = {} /\ part = EmptyFun
       \/ StorageFailure(r)
    /\ Same

\* Saving to a slice of bytes can't be observed step by step, and can't fail.
RetFlushSlice(r) ==
    /\ cl.op = "Flush" /\ kind = "slice"
    /\ Success(r)
    /\ img' = [i \in 1..Len(img) |->
                  IF (i-1) \div bs \in dirty THEN View((i-1) \div bs)[((i-1) % bs) + 1]
                  ELSE img[i]]
    /\ mem' = Restrict(mem, DOMAIN mem \ dirty)
    /\ dirty' = {}
    /\ UNCHANGED <<nb, maybe>>

RetCheckBounds(r) ==
    /\ cl.op = "CheckBounds" /\ ~Refused
    /\ Success(r)
    /\ Same

RetMinBlocks(r) ==
    /\ cl.op = "MinBlocks"
    /\ Success(r)
    /\ r.n = MinBlocks(cl.len)
    /\ Same

\* C04
RetResize(r) ==
    /\ cl.op = "Resize"
    /\ \/ /\ Success(r)
          /\ sized = cl.n \/ (sized = -1 /\ cl.n = nb)
          /\ nb' = cl.n
          /\ LET kept == 0..(Min2(nb, cl.n) - 1)
                 new  == nb..(cl.n - 1)
             IN  /\ mem' = [b \in (DOMAIN mem \cap kept) \cup new |->
                               IF b \in new THEN Zeros(bs) ELSE mem[b]]
                 /\ dirty' = (dirty \cap kept) \cup new
                 /\ maybe' = maybe \cap kept
       \/ /\ \/ StorageFailure(r) /\ sized = -1
             \/ rz = "nil" /\ "notsup" \in r.err
             \/ rz = "notsup" /\ "notsup" \in r.err
             \/ rz = "forbid" /\ "perm" \in r.err
          /\ Same

Ret(r) ==
    /\ ~Idle
    /\ \/ RetFlushSlice(r)
       \/ /\ UNCHANGED img
          /\ \/ RetRefused(r) \/ RetReadAt(r) \/ RetWriteAt(r) \/ RetGetSlice(r)
             \/ RetData(r) \/ RetLoadAll(r) \/ RetMark(r) \/ RetFlush(r)
             \/ RetCheckBounds(r) \/ RetMinBlocks(r) \/ RetResize(r)
    /\ Done
    /\ UNCHANGED <<kind, rz, grow, bs>>

\* The user modifies blocks through a slice; `data` is the slice afterwards.
\* It must be marked dirty, but until then it's not certain that it's saved.
Poke(start, count, data) ==
    /\ Idle
    /\ LET W == {b \in Range(start, count) :
                   [i \in 1..bs |-> data[(b - start) * bs + i]] # View(b)}
       IN  /\ mem' = [b \in DOMAIN mem \cup W |->
                         IF b \in W THEN [i \in 1..bs |-> data[(b - start) * bs + i]]
                         ELSE mem[b]]
           /\ maybe' = maybe \cup (W \ dirty)
    /\ UNCHANGED <<kind, rz, grow, bs, nb, img, dirty, part, cl, failed, sized>>

Info(r) ==
    /\ cl.op = "Info"
    /\ r.bs = bs /\ r.nb = nb /\ r.size = bs * nb
    /\ Done
    /\ UNCHANGED <<kind, rz, grow, bs, img>> /\ Same

-----------------------------------------------------------------------------
InitWith(k, z, g, size, blocks, image) ==
    /\ kind = k /\ rz = z /\ grow = g
    /\ bs = size /\ nb = blocks /\ img = image
    /\ mem = EmptyFun /\ dirty = {} /\ maybe = {} /\ part = EmptyFun
    /\ cl = IdleCall /\ failed = {} /\ sized = -1

-----------------------------------------------------------------------------
(* Properties of the design itself                                         *)

TypeOK ==
    /\ bs \in Nat \ {0} /\ nb \in Nat
    /\ DOMAIN mem \subseteq Blocks
    /\ \A b \in DOMAIN mem : Len(mem[b]) = bs
    /\ dirty \subseteq Blocks /\ maybe \subseteq Blocks
    /\ dirty \cap maybe = {}

\* Everything that must be saved is remembered, so it can be saved.
PendingIsRemembered == dirty \subseteq DOMAIN mem

\* Whatever is only in memory is (or may be) pending: nothing gets lost.
NothingLost == DOMAIN mem \subseteq dirty \cup maybe

\* C02: between calls, what isn't pending is in the storage.
CleanIsStored == Idle => \A b \in Blocks \ (dirty \cup maybe) : View(b) = Stored(b)

\* Callback storage always has room for exactly the cache's blocks.
StorageFits == (kind = "cb" /\ Idle) => Len(img) = nb * bs

\* C03: a refused call has no effect.
RefusedHasNoEffect == [][Refused => (img' = img /\ mem' = mem /\ dirty' = dirty /\ nb' = nb)]_vars

\* C02/C05: the storage only changes when flushing or resizing.
StorageOnlyChangesWhenSaving == [][img' # img => cl.op \in {"Flush", "Resize"}]_vars

\* C01: what a block reads as changes only by writing to it (or resizing).
ViewStable ==
    [][\A b \in Blocks : (b < nb' /\ (sized' = -1 \/ b < sized') /\ cl.op \notin {"WriteAt", "none"}) => View(b) = View(b)']_vars
=============================================================================
