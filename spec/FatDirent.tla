----------------------------- MODULE FatDirent ------------------------------
(* The timestamps of FAT directory entries in memory, and which entries are  *)
(* about the same file. C33.                                                 *)
EXTENDS FatTree

VARIABLE ents  \* sequence of entries, see Decode

\* What's known about an entry: its bytes' meaning never changes, its times can.
\* A time is <<>> when it's not known what it is.
Decode(b, bpc) ==
    LET e == Entry(b, bpc)
    IN  [raw |-> e, bpc |-> bpc, deleted |-> e.deleted, deletedAt |-> <<>>,
         created |-> e.created, modified |-> e.modified, accessed |-> e.accessed]

Fields == {"created", "modified", "accessed", "deletedAt"}

\* The errors that setting a time may give
SetOut(d, field, t) ==
    (IF Early(t) THEN {"range"} ELSE {}) \cup (IF field = "created" /\ d.deleted THEN {"noent"} ELSE {})

WithTime(d, field, t) ==
    IF SetOut(d, field, t) # {} THEN d
    ELSE CASE field = "created"   -> [d EXCEPT !.created = t]
           [] field = "modified"  -> [d EXCEPT !.modified = t]
           [] field = "accessed"  -> [d EXCEPT !.accessed = t]
           [] field = "deletedAt" -> [d EXCEPT !.deletedAt = t, !.deleted = TRUE]

SetTime(i, field, t) == ents' = [ents EXCEPT ![i] = WithTime(@, field, t)]

\* A copy has its own times
Copy(i) == ents' = Append(ents, ents[i])

SetOk(d, field, t, err) == LET want == SetOut(d, field, t) IN IF want = {} THEN err = {} ELSE want \cap err # {}

\* What can be seen of an entry
Shows(d, got) ==
    /\ NameOk(d.raw.name, got.name, d.raw.deleted)
    /\ got.deleted = d.deleted
    /\ got.attr = d.raw.attr /\ got.nt = d.raw.nt /\ got.first = d.raw.first /\ got.size = d.raw.size
    /\ got.dir = d.raw.dir /\ got.isdir = d.raw.dir /\ got.perm = d.raw.perm /\ got.device = d.raw.device
    /\ got.other = FALSE
    /\ (d.deleted \/ StampOk(d.created, got.created)) = TRUE
    /\ StampOk(d.modified, got.modified) /\ StampOk(d.accessed, got.accessed)
    /\ (~d.deleted \/ StampOk(d.deletedAt, got.deletedAt)) = TRUE
    /\ IF d.deleted THEN "noent" \in Set(got.createdErr) /\ got.deletedErr = <<>>
                    ELSE got.createdErr = <<>> /\ "invalid" \in Set(got.deletedErr)
    /\ (d.deleted \/ got.undefined) = TRUE
    /\ LET s == got.stat
       IN  /\ s.size = d.raw.size /\ s.blocks = d.raw.blocks /\ s.bs = d.bpc /\ s.nlinks = 1
           /\ s.dir = d.raw.dir /\ s.perm = d.raw.perm /\ s.device = d.raw.device /\ s.ino = d.raw.first
           /\ StampOk(d.modified, s.modified) /\ StampOk(d.accessed, s.accessed)
           /\ (d.deleted \/ StampOk(d.created, s.created)) = TRUE

\* Empty files have no clusters, so they can't be told apart
SameOk(a, b, got) ==
    IF a.raw.first = <<>> /\ b.raw.first = <<>> THEN TRUE
    ELSE got = (a.raw.first = b.raw.first)
=============================================================================
