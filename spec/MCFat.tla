------------------------------- MODULE MCFat --------------------------------
(* Small FAT volumes with every allocation table, for TLC and for generating *)
(* scripts. The driver does what the documentation says; any of the things   *)
(* it asks of the version specific part may fail.                            *)
EXTENDS FatTree, Json, SequencesExt

CONSTANTS Mode, Ops, Depth, Deep, Emitting

VARIABLES lab, steps, plan, done

mcvars == <<fvars, lab, steps, plan, done>>

EOC == 65528

Pad(s, n) == s \o Repeat(32, n - Len(s))

\* Run-length lists are printed as they are, so adjacent runs are merged
RECURSIVE Runs(_)
Runs(b) == IF b = <<>> THEN <<>>
           ELSE LET rest == Runs(Tail(b))
                IN  IF rest # <<>> /\ Head(rest)[2] = Head(b) THEN << <<Head(rest)[1] + 1, Head(b)>> >> \o Tail(rest)
                    ELSE << <<1, Head(b)>> >> \o rest

Bytes2(n) == <<n % 256, n \div 256>>
RawEntry(name, attr, first, size) ==
    Runs(Pad(name, 11) \o <<attr, 0, 50>> \o <<0, 96, 33, 80, 33, 82, 0, 0, 32, 64, 33, 84>> \o Bytes2(first) \o Bytes2(size) \o <<0, 0>>)

Blank == << <<32, 0>> >>
Chunk(k) == << <<31, k>>, <<1, 200 + k>> >>

Fname == <<70>>
Gname == <<71>>
Dname == <<68>>

\* Every table of three clusters, a file with every beginning and various sizes
Links == {0, 2, 3, 4, EOC} \cup (IF Deep THEN {1, 5} ELSE {})
FileVolumes ==
    {[spc |-> 1, bpc |-> 32, n |-> 3, eoc |-> EOC,
      fat |-> <<0, 0, a, b, c>>, data |-> <<Chunk(2), Chunk(3), Chunk(4)>>,
      root |-> <<RawEntry(Fname, 32, first, size)>>] :
        a, b, c \in Links, first \in {0, 1, 2, 5, EOC} \cup (IF Deep THEN {3} ELSE {}),
        size \in {0, 33, 65, 96, 97} \cup (IF Deep THEN {1, 32} ELSE {})}

Unless(m, s) == IF Mode = m THEN {} ELSE s

\* Two files, of which one in a directory whose entries lie in two clusters
TreeVolumes ==
    {[spc |-> 1, bpc |-> 32, n |-> 5, eoc |-> EOC,
      fat |-> <<0, 0, 3, d, g1, g2, f>>,
      data |-> <<RawEntry(DOT, 16, 2, 0), RawEntry(Gname, attr, 4, size), IF end THEN Blank ELSE Chunk(4), Chunk(5), Chunk(6)>>,
      root |-> <<RawEntry(Fname, 32, f1, 20), RawEntry(Dname, 16, 2, 0), Blank>>] :
        d \in {EOC, 4, 2, 0}, g1 \in {EOC} \cup Unless("meta", {5}), g2 \in {EOC} \cup Unless("meta", {6}), f \in {EOC},
        attr \in {32, 16, 8} \cup (IF Mode = "meta" THEN {33, 17} ELSE {}), size \in {40} \cup Unless("meta", {10}),
        end \in BOOLEAN, f1 \in {6} \cup Unless("meta", {4})}

AsSeq(v) == [v EXCEPT !.data = [i \in 1..Len(v.data) |-> <<v.data[i]>>]]
AsVol(v) == [v EXCEPT !.fat = [c \in 0..(Len(v.fat) - 1) |-> v.fat[c + 1]],
                      !.data = [c \in 2..(Len(v.data) + 1) |-> <<v.data[c - 1]>>]]

MCInit ==
    /\ \E v \in (IF Mode = "file" THEN FileVolumes ELSE TreeVolumes) : InitWith(AsVol(v))
    /\ sane = Consistent
    /\ lab = [k |-> "start"] /\ steps = 0 /\ plan = "" /\ done = 0

Paths == IF Mode = "file" THEN {<< <<>>, Fname >>}
         ELSE {<< <<>>, Fname >>, << <<>>, Dname, Gname >>, <<Dname, Gname, Fname>>, << <<>>, Dname >>, << <<>>, Gname >>, << <<>> >>,
               <<Dname, DOTDOT, Fname>>}
Plans == IF Mode = "file" THEN {"", "delete", "get", "free1", "free2", "update"} ELSE {"", "delete", "free1", "update"}

FailOf(p) == CASE p = "" -> [kind |-> "none", n |-> 0]
               [] p = "delete" -> [kind |-> "delete", n |-> 1]
               [] p = "get" -> [kind |-> "get", n |-> 1]
               [] p = "free1" -> [kind |-> "free", n |-> 1]
               [] p = "update" -> [kind |-> "update", n |-> 1]
               [] p = "free2" -> [kind |-> "free", n |-> 2]

\* What else the operations are given. "write" follows from the mode.
Old == <<1979, 12, 31, 23, 59, 59, 99>>
New == <<1980, 1, 1, 0, 0, 0, 0>>
Late == <<2107, 12, 31, 23, 59, 59, 99>>
Args(op) ==
    CASE op = "Chmod" -> {[op |-> op, mode |-> m, write |-> m \in {128, 16, 2, 511}] : m \in {0, 128, 16, 2, 365, 511}}
      [] op = "Chtimes" -> {[op |-> op, atime |-> a, mtime |-> m] : a, m \in {Old, New, Late}}
      [] OTHER -> {[op |-> op]}
PlansOf(op) == CASE op = "Remove" -> Plans \ {"update"} [] op \in {"Chmod", "Chtimes"} -> Plans \cap {"", "update"} [] OTHER -> {""}

MCCall ==
    /\ cl.op = "" /\ steps < Depth
    /\ \E path \in Paths, op \in Ops : \E p \in PlansOf(op), a \in Args(op) :
        /\ plan' = p /\ done' = 0
        /\ Start(a @@ [path |-> path])
        /\ lab' = [k |-> "call", c |-> a @@ [path |-> path, fail |-> FailOf(p)]]
    /\ steps' = steps + 1

Inner(action) == cl.op # "" /\ action /\ lab' = [k |-> "inner", ok |-> TRUE] /\ UNCHANGED <<steps, plan>>

MCDelete == cl.op = "Remove" /\ Inner(/\ \E r \in cl.rs : IsFile(r) /\ DeleteEntry(NameOf(r.b), Entry(r.b, vol.bpc).first, Big(r.dir), plan = "delete")
                  /\ done' = done)
MCGet == Inner(plan = "get" /\ cl.op = "Remove" /\ cl.deleted /\ ~cl.failed /\ cl.left = Len(cl.chain) /\ Fault /\ done' = done)
MCFree == Inner(/\ cl.op = "Remove" /\ cl.deleted /\ cl.ok /\ cl.left > 0 /\ ~cl.failed /\ plan # "get"
                /\ Free(cl.chain[cl.left], (plan = "free1" /\ done = 0) \/ (plan = "free2" /\ done = 1))
                /\ done' = done + 1)

\* The entry as it is to be written back
Wanted(r) ==
    LET e == IF r.res = "entry" THEN Entry(r.b, vol.bpc) ELSE Entry(Repeat(0, 32), vol.bpc)
    IN  [name |-> e.name, first |-> e.first, size |-> e.size,
         attr |-> IF cl.op = "Chmod" THEN WithReadOnly(e.attr, ~cl.a.write) ELSE e.attr,
         stat |-> [size |-> e.size, ino |-> e.first, created |-> e.created,
                   accessed |-> IF cl.op = "Chtimes" THEN cl.a.atime ELSE e.accessed,
                   modified |-> IF cl.op = "Chtimes" THEN cl.a.mtime ELSE e.modified,
                   perm |-> IF cl.op = "Chmod" THEN IF cl.a.write THEN 511 ELSE 365 ELSE e.perm]]
MCUpdate == cl.op \in {"Chmod", "Chtimes"} /\ Inner((\E r \in cl.rs : Update(Wanted(r), plan = "update")) /\ done' = done)

\* The call may return
MCRet ==
    /\ cl.op # ""
    /\ \E err \in {{}, {"other"}, {"noent"}} :
          CASE cl.op = "Remove" -> RemoveDone(err)
            [] cl.op \in {"Chmod", "Chtimes"} -> ChangeDone(err)
            [] cl.op = "ReadFile" -> \E o \in OrFault(UNION {ReadOut(r) : r \in cl.rs}) : ErrOk(o.err, err)
            [] cl.op = "Readdir" -> \E o \in OrFault(UNION {ListOut(r) : r \in cl.rs}) : ErrOk(o.err, err)
            [] cl.op = "Stat" -> \E o \in OrFault(UNION {StatOut(r) : r \in cl.rs}) : ErrOk(o.err, err)
    /\ cl' = NoCall
    /\ lab' = [k |-> "ret"]
    /\ UNCHANGED <<vol, freed, sane, steps, plan, done>>

MCNext == MCCall \/ MCDelete \/ MCGet \/ MCFree \/ MCUpdate \/ MCRet
Spec == MCInit /\ [][MCNext]_mcvars

TypeOK ==
    /\ freed \subseteq 2..(vol.n + 1)
    /\ cl.op = "Remove" => cl.left \in 0..Len(cl.chain)
    /\ \A c \in freed : vol.fat[c] = 0

\* Every call can end
Returns == cl.op # "" => ENABLED (MCDelete \/ MCGet \/ MCFree \/ MCUpdate \/ MCRet)

\* Only removing changes anything; clusters are freed only when no entry refers to them
Passive == [][vol' # vol => cl.op = "Remove"]_mcvars
\* Nothing is written back when the times aren't possible
Refused == cl.op = "Chtimes" /\ MustRefuse => ~cl.updated

\* Other files keep their content
OthersIntact == [][(sane /\ vol' # vol) =>
    \A x \in All : (x[3] # (CHOOSE r \in cl'.rs : TRUE).b) => Range(ChainOf(x).list) \cap (freed' \ freed) = {}]_mcvars

View0 == <<vol, cl, freed, steps, plan, done>>
StartLab == [vol EXCEPT !.fat = [i \in 1..(vol.n + 2) |-> vol.fat[i - 1]], !.data = [i \in 1..vol.n |-> vol.data[i + 1]]]
State == [v |-> StartLab, c |-> cl, f |-> SetToSortSeq(freed, LAMBDA a, b : a < b), n |-> steps, p |-> plan, d |-> done]
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> State, t |-> State',
                                          l |-> IF steps = 0 /\ lab'.k = "call" THEN lab' @@ [start |-> StartLab] ELSE lab']))
=============================================================================
