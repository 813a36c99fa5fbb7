------------------------------ MODULE MCFsTree ------------------------------
(* Bounded instances of FsTree that TLC explores exhaustively:             *)
(*   look  every small layout of directories, files and symbolic links,    *)
(*         looked at through every short path from every directory         *)
(*   tree  sequences of changes to a few small volumes                     *)
(*   perm  the same for every combination of mount permissions             *)
(*   data  everything that can be done with the content of one file        *)
(*   dir   reading directories in pieces                                   *)
(* What the driver does in between (the calls to the implementation) is    *)
(* collapsed into one step here: the volume becomes what the operation is  *)
(* meant to make of it.                                                    *)
EXTENDS FsTree, Json

CONSTANTS Mode, Depth, Part, Parts, Emitting

VARIABLES lab, n, done
mvars == <<vars, lab, n, done>>

-----------------------------------------------------------------------------
(* Volumes                                                                 *)

Dir(entries) == [NewObj("d", 493) EXCEPT !.e = entries]
File(data) == [NewObj("f", 420) EXCEPT !.data = data, !.size = Len(data)]
Link(abs, tg) == [NewObj("l", 511) EXCEPT !.abs = abs, !.tg = tg, !.size = 1]
Ent(name, id) == [n |-> name, id |-> id]

Targets == <<[abs |-> TRUE, tg |-> <<"a">>], [abs |-> FALSE, tg |-> <<"a">>], [abs |-> FALSE, tg |-> <<"b">>],
             [abs |-> FALSE, tg |-> <<"..", "b">>], [abs |-> TRUE, tg |-> <<"a", "a">>], [abs |-> FALSE, tg |-> <<".">>],
             [abs |-> FALSE, tg |-> <<"b", "a">>], [abs |-> TRUE, tg |-> <<"z">>]>>

\* What an entry may be: nothing, a file, an empty directory, or a link
Leaf(k) == CASE k = 1 -> <<File(<<7>>)>>
             [] k = 2 -> <<Dir(<<>>)>>
             [] k > 2 -> <<Link(Targets[k - 2].abs, Targets[k - 2].tg)>>
             [] OTHER -> <<>>
Leafs == 0..(2 + Len(Targets))

\* root/a (a directory if x = 2, with a/a = y), root/b = z
Volume(x, y, z) ==
    LET a == IF x = 2 THEN IF y = 0 THEN <<Dir(<<>>)>> ELSE <<Dir(<<Ent("a", 3)>>)>> \o Leaf(y) ELSE Leaf(x)
        b == Leaf(z)
        ea == IF x = 0 THEN <<>> ELSE <<Ent("a", 2)>>
        eb == IF z = 0 THEN <<>> ELSE <<Ent("b", 2 + Len(a))>>
    IN  <<Dir(ea \o eb)>> \o a \o b

Layouts == {<<x, y, z>> \in Leafs \X Leafs \X Leafs : x # 2 => y = 0}
Hash(v) == v[1] + 11 * v[2] + 7 * v[3]
Chosen ==
    CASE Mode = "look" -> {v \in Layouts : Hash(v) % Parts = Part}
      [] Mode = "tree" -> {v \in {<<2, 1, 4>>, <<2, 6, 1>>, <<2, 2, 3>>, <<5, 0, 4>>, <<2, 3, 10>>, <<0, 0, 0>>, <<1, 0, 3>>, <<2, 4, 1>>} :
                            Hash(v) % Parts = Part}
      [] Mode = "perm" -> {<<2, 1, 3>>, <<2, 2, 1>>}
      [] OTHER -> {<<k, 0, 0>> : k \in {k \in 0..5 : k % Parts = Part}}

Many(k) == <<"p", "q", "r", "s", "t">>[k]
VolumeOf(v) ==
    CASE Mode = "data" -> <<Dir(<<Ent("a", 2)>>), [File(SubSeq(<<11, 12, 13, 14, 15, 0>>, 1, 2 * ((v[1] + 1) \div 2))) EXCEPT !.size = v[1]]>>
      [] Mode = "dir" -> <<Dir(<<Ent("a", 2)>>), Dir([k \in 1..v[1] |-> Ent(Many(k), k + 2)])>>
                         \o [k \in 1..v[1] |-> IF k % 3 = 0 THEN Dir(<<>>) ELSE IF k % 3 = 1 THEN File(<<k>>) ELSE Link(FALSE, <<"z">>)]
      [] OTHER -> Volume(v[1], v[2], v[3])

Config(w, i, d, a) ==
    [bs |-> IF Mode = "data" THEN 2 ELSE 1, w |-> w, i |-> i, d |-> d, a |-> a, hard |-> TRUE, attrs |-> TRUE, sym |-> TRUE, at |-> TRUE, mt |-> TRUE, ct |-> FALSE]
Configs ==
    IF Mode = "perm" THEN {Config(w, i, d, a) : w \in BOOLEAN, i \in BOOLEAN, d \in BOOLEAN, a \in BOOLEAN}
    ELSE {Config(TRUE, TRUE, TRUE, TRUE)}

Init ==
    /\ InitWith(<<Dir(<<>>)>>, CHOOSE c \in Configs : TRUE)
    /\ lab = [k |-> "init"] /\ n = -1 /\ done = FALSE

MCMount ==
    /\ n = -1
    /\ \E v \in Chosen, c \in Configs :
        /\ objs' = VolumeOf(v) /\ cfg' = c
        /\ lab' = [k |-> "open", objs |-> objs', c |-> c]
    /\ n' = 0
    /\ UNCHANGED <<cwd, hs, cl, t0, faulted, born, done>>

-----------------------------------------------------------------------------
(* Calls                                                                   *)

P(comps) == [abs |-> TRUE, comps |-> comps]
R(comps) == [abs |-> FALSE, comps |-> comps]
Short == {P(<<>>), P(<<"a">>), P(<<"b">>), P(<<"a", "a">>), P(<<"a", "b">>), P(<<"b", "a">>), P(<<"b", "b">>)}
Long == {P(<<"b", "a", "a">>), P(<<"a", "a", "a">>), P(<<"b", "", "..", "a">>), R(<<"a">>), R(<<"..">>), R(<<>>), R(<<"..", "b">>), R(<<"a", ".">>)}
New == {P(<<"a", "b">>), P(<<"b">>), P(<<"b", "a">>), P(<<"z">>)}

LookCalls ==
    {[op |-> o, p |-> p] : o \in {"Stat", "Lstat", "Readlink", "ReadFile", "ReadDir", "Chdir", "Normalize"}, p \in Short \cup Long}
    \cup {[op |-> "Getwd"]}

Fl(r, w, c, x, t) == [r |-> r, w |-> w, a |-> FALSE, c |-> c, x |-> x, t |-> t, s |-> FALSE]
OpenFlags == {Fl(TRUE, FALSE, FALSE, FALSE, FALSE), Fl(TRUE, TRUE, TRUE, FALSE, FALSE), Fl(FALSE, TRUE, TRUE, TRUE, FALSE),
              Fl(FALSE, TRUE, FALSE, FALSE, TRUE), Fl(TRUE, FALSE, TRUE, FALSE, FALSE), Fl(TRUE, FALSE, TRUE, TRUE, FALSE)}

ChangeCalls ==
    {[op |-> o, p |-> p] : o \in {"Remove", "RemoveAll", "Truncate"}, p \in Short \cup {P(<<"b", "b", "a">>)}}
    \cup {[op |-> o, p |-> p, mode |-> 448] : o \in {"Mkdir", "MkdirAll"}, p \in Short \cup {P(<<"a", "b", "a">>), P(<<"b", "b", "a">>)}}
    \cup {[op |-> "WriteFile", p |-> p, mode |-> 384, data |-> d] : p \in Short, d \in {<<>>, <<5, 6>>}}
    \cup {[op |-> "OpenFile", p |-> p, mode |-> 384, fl |-> f, slot |-> 1] : p \in Short, f \in OpenFlags}
    \cup {[op |-> "Create", p |-> p, slot |-> 1] : p \in Short}
    \cup {[op |-> "Link", p |-> p, q |-> q] : p \in Short, q \in New}
    \cup {[op |-> "Chmod", p |-> p, mode |-> 146] : p \in Short}
    \cup {[op |-> o, p |-> p, uid |-> 3, gid |-> 4] : o \in {"Chown", "Lchown"}, p \in Short}
    \cup {[op |-> "Chtimes", p |-> p, at |-> 8, mt |-> 9] : p \in Short}

DirCalls ==
    IF hs[1].open
    THEN {[op |-> "HReadDir", slot |-> 1, n |-> k, kind |-> x] : k \in {-1, 1, 2, 3, 6}, x \in {"ReadDir", "Readdir", "Readdirnames"}}
         \cup {[op |-> o, slot |-> 1] : o \in {"HClose", "HName", "HStat"}}
    ELSE {[op |-> "OpenDir", p |-> P(<<"a">>), slot |-> 1], [op |-> "ReadDir", p |-> P(<<"a">>)]}

\* The content stays short
Datas == {<<1>>, <<1, 1, 1>>}
DataCalls ==
    IF hs[1].open
    THEN {[op |-> o, slot |-> 1] : o \in {"HSync", "HClose"}}
         \cup {[op |-> "HSeek", slot |-> 1, whence |-> w, off |-> k] : w \in {0, 2}, k \in {0}}
         \cup {[op |-> "HRead", slot |-> 1, len |-> 2], [op |-> "HWriteTo", slot |-> 1]}
         \cup (IF hs[1].w THEN {[op |-> "HTruncate", slot |-> 1, size |-> k] : k \in {1, 4}} ELSE {})
         \cup (IF hs[1].w /\ Len(hs[1].f) <= 3 /\ hs[1].pos <= 3
               THEN {[op |-> "HWrite", slot |-> 1, data |-> d] : d \in Datas}
                    \cup {[op |-> "HReadFrom", slot |-> 1, data |-> <<1>>, chunk |-> 1, late |-> FALSE]}
                    \cup {[op |-> "HWriteAt", slot |-> 1, data |-> <<1>>, off |-> k] : k \in {0, 4}} ELSE {})
    ELSE {[op |-> "OpenFile", p |-> P(<<"a">>), mode |-> 0, slot |-> 1, fl |-> Fl(r, w, FALSE, FALSE, t)] :
             r \in {TRUE}, w \in BOOLEAN, t \in BOOLEAN}
         \cup {[op |-> "WriteFile", p |-> P(<<"a">>), mode |-> 0, data |-> SubSeq(<<6, 6, 6, 6, 6>>, 1, k)] : k \in 0..5}
         \cup {[op |-> o, p |-> P(<<"a">>)] : o \in {"Truncate", "ReadFile", "Stat"}}

Bounded == Mode \in {"tree", "perm", "data"}
Calls ==
    CASE Mode = "look" -> LookCalls
      [] Mode = "dir" -> DirCalls
      [] Mode = "data" -> DataCalls
      [] hs[1].open -> {[op |-> "HClose", slot |-> 1]}
      [] OTHER -> ChangeCalls

MCCall ==
    /\ Idle /\ n >= 0 /\ (Bounded => hs[1].open \/ n < Depth)   \* everything gets closed
    /\ \E c \in Calls : (hs[1].open /\ Bounded /\ n >= Depth => c.op = "HClose") /\ Call(c)
    /\ n' = n
    /\ lab' = [k |-> "call", c |-> cl']
    /\ done' = FALSE

Padded(f) == f \o Zeros(RoundUp(Len(f)) - Len(f))

\* What the driver makes the implementation do
MCDo ==
    /\ ~Idle /\ ~done
    /\ IF cl.op \in {"HSync", "HClose"} /\ objs[H.id].t = "f"
       THEN objs' = [objs EXCEPT ![H.id].data = Padded(H.f), ![H.id].size = Len(H.f)]
       ELSE IF cl.op \in PathOps /\ Required(cl) = {}
       THEN \E v \in Outcomes(cl) : objs' = [id \in 1..Len(v) |-> [v[id] EXCEPT !.data = Padded(@)]]
       ELSE UNCHANGED objs
    /\ born' = born \cup {id \in 1..Len(objs') : id > Len(objs)}
    /\ done' = TRUE /\ lab' = [k |-> "do", ok |-> TRUE]
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, faulted, n>>

StatRec(id) ==
    LET o == objs[id]
    IN  [t |-> o.t, id |-> id, mode |-> o.mode, uid |-> o.uid, gid |-> o.gid, at |-> o.at, mt |-> o.mt, size |-> o.size]
EntryRec(x) ==
    LET o == objs[x.id]
    IN  [n |-> x.n, t |-> o.t, id |-> x.id, mode |-> o.mode, uid |-> o.uid, gid |-> o.gid, at |-> o.at, mt |-> o.mt, size |-> o.size,
         isdir |-> o.t = "d", notdir |-> o.t # "d", it |-> o.t, isize |-> o.size, imode |-> o.mode, in |-> x.n, sys |-> x.id,
         etype |-> o.t, imt |-> o.mt]

\* The answer of a correct driver
Answer ==
    CASE cl.op \in {"Stat", "Lstat"} -> [err |-> {}, stat |-> StatRec(Look(cl.p, cl.op = "Stat").id)]
      [] cl.op = "Readlink" -> LET o == t0[Look(cl.p, FALSE).id] IN [err |-> {}, target |-> [abs |-> o.abs, comps |-> o.tg]]
      [] cl.op = "ReadFile" -> [err |-> {}, data |-> Content(objs, Look(cl.p, TRUE).id)]
      [] cl.op = "ReadDir" ->
            LET e == objs[Look(cl.p, TRUE).id].e IN [err |-> {}, list |-> [i \in 1..Len(e) |-> EntryRec(e[i])]]
      [] cl.op = "Getwd" -> [err |-> {}, path |-> cwd]
      [] cl.op = "Normalize" -> [err |-> {}, path |-> Normal(cl.p)]
      [] cl.op = "HRead" ->
            LET d == SubSeq(H.f, H.pos + 1, Min2(Len(H.f), H.pos + cl.len))
            IN  [err |-> IF d = <<>> THEN {"eof"} ELSE {}, n |-> Len(d), data |-> d, size |-> Len(H.f), pos |-> H.pos + Len(d)]
      [] cl.op = "HWriteTo" ->
            LET d == SubSeq(H.f, H.pos + 1, Len(H.f))
            IN  [err |-> {}, n |-> Len(d), data |-> d, size |-> Len(H.f), pos |-> H.pos + Len(d)]
      [] cl.op \in {"HWrite", "HWriteAt", "HReadFrom"} ->
            [err |-> {}, n |-> Len(cl.data), data |-> <<>>, size |-> Len(Target),
             pos |-> IF cl.op # "HWriteAt" THEN Offset + Len(cl.data) ELSE H.pos]
      [] cl.op = "HTruncate" -> [err |-> {}, n |-> 0, data |-> <<>>, size |-> cl.size, pos |-> H.pos]
      [] cl.op = "HSeek" ->
            LET to == cl.off + IF cl.whence = 0 THEN 0 ELSE Len(H.f)
            IN  [err |-> {}, n |-> to, data |-> <<>>, size |-> Len(H.f), pos |-> to]
      [] IsStreamOp -> [err |-> {}, n |-> 0, data |-> <<>>, size |-> Len(H.f), pos |-> H.pos]
      [] cl.op = "HReadDir" ->
            LET e == objs[H.id].e
                k == IF cl.n <= 0 THEN Len(e) - H.at ELSE Min2(cl.n, Len(e) - H.at)
            IN  [err |-> IF k = 0 /\ cl.n > 0 THEN {"eof"} ELSE {}, list |-> [i \in 1..k |-> EntryRec(e[H.at + i])]]
      [] cl.op = "HName" -> [err |-> {}, name |-> NameOf(H.path)]
      [] cl.op = "HStat" ->
            [err |-> {}, info |-> [t |-> objs[H.id].t, id |-> H.id, mode |-> objs[H.id].mode, n |-> NameOf(H.path), mt |-> objs[H.id].mt,
                                   isdir |-> objs[H.id].t = "d", size |-> Len(H.f), sys |-> H.id],
             entry |-> <<objs[H.id].t, H.id, Len(H.f), NameOf(H.path)>>]
      [] OTHER -> [err |-> {}]

MCRet ==
    /\ ~Idle /\ done
    /\ IF cl.op \in PathOps THEN RetPath(IF Required(cl) = {} THEN Answer ELSE [err |-> Required(cl)])
       ELSE RetH(Answer)
    /\ done' = FALSE /\ lab' = [k |-> "ret"]
    /\ n' = IF Bounded /\ (objs # t0 \/ (Mode = "data" /\ IsStreamOp /\ hs' # hs /\ cl.op # "HClose")) THEN n + 1 ELSE n

MCEnd == Idle /\ Bounded /\ n >= Depth /\ ~hs[1].open /\ UNCHANGED <<vars, n, done>> /\ lab' = [k |-> "end"]

Next == MCMount \/ MCCall \/ MCDo \/ MCRet \/ MCEnd
Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* Volumes that only differ in numbers and removed objects are the same.   *)

Names(id) == {<<d, i>> \in (1..Len(objs)) \X (1..9) : i <= Len(objs[d].e) /\ objs[d].e[i].id = id}
RECURSIVE Shape(_)
Shape(id) ==
    LET o == objs[id]
        attrs == <<o.mode, o.uid, o.at, id \in born>>
    IN  CASE o.t = "d" -> <<"d", attrs, [i \in 1..Len(o.e) |-> <<o.e[i].n, Shape(o.e[i].id)>>]>>
          [] o.t = "f" -> <<"f", attrs, o.data, Cardinality(Names(id))>>
          [] OTHER -> <<"l", attrs, o.abs, o.tg>>

View0 == <<Shape(Root), cwd, cfg.w, cfg.i, cfg.d, cfg.a, cl, hs[1], n, done,
           IF done THEN t0 # objs ELSE FALSE>>
Emit == Emitting /\ lab'.k # "end" => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> View0, l |-> lab', t |-> View0']))

\* C10: the path that a lookup finds an object at is its real path.
RealPaths ==
    ~Idle /\ "p" \in DOMAIN cl =>
        \A follow \in BOOLEAN :
            LET x == Look(cl.p, follow)
            IN  /\ Ok(x) => LookAt(t0, x.path, FALSE) = x
                /\ follow /\ Ok(x) => t0[x.id].t # "l"
                /\ ~Ok(x) => x.k \in {"noent", "notdir", "loop"}

\* C11: what fails has no effect.
FailuresAreInert == [][n >= 0 /\ ~Idle /\ Idle' /\ "p" \in DOMAIN cl /\ Required(cl) # {} => objs' = t0]_mvars
=============================================================================
