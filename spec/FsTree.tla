------------------------------- MODULE FsTree -------------------------------
(***************************************************************************)
(* The generic driver over a file system implementation (package driver),  *)
(* properties C10 - C15 and C32.                                           *)
(*                                                                         *)
(* `objs` is the volume: a sequence of objects, the first one is the root  *)
(* directory.  It only changes through calls the driver makes to the       *)
(* implementation (the E... actions, whose guards are the documented       *)
(* guarantees, C14, and the mount permissions, C13).  When a call to the   *)
(* driver returns, the volume must have become what the operation's os     *)
(* counterpart makes of it (C11), which is defined on the volume `t0` as   *)
(* it was when the call was made.  Paths are resolved by Walk (C10).       *)
(*                                                                         *)
(* Paths are [abs, comps]; components may be "", "." and "..".             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    objs,     \* objects, see NewObj
    cwd,      \* working directory: a sequence of names
    cfg,      \* mount permissions w, i, d, a; features; block size bs
    hs,       \* slot -> open handle
    cl,       \* call being executed; op = "none" between calls
    t0,       \* the volume when the call was made
    faulted,  \* the implementation failed during this call
    born      \* files created since mounting

vars == <<objs, cwd, cfg, hs, cl, t0, faulted, born>>

Idle == cl.op = "none"
Root == 1
Slots == 1..3
Closed == [open |-> FALSE]

NewObj(type, mode) ==
    [t |-> type, e |-> <<>>, data |-> <<>>, size |-> 0, mode |-> mode,
     uid |-> 0, gid |-> 0, at |-> 0, mt |-> 0, abs |-> FALSE, tg |-> <<>>]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Prefix(seq, n) == SubSeq(seq, 1, n)
Overlay(base, off, data) ==
    IF data = <<>> THEN base
    ELSE SubSeq(base, 1, Min2(off, Len(base))) \o Zeros(Max2(0, off - Len(base))) \o data
         \o SubSeq(base, off + Len(data) + 1, Len(base))
Resized(base, n) == SubSeq(base, 1, Min2(n, Len(base))) \o Zeros(Max2(0, n - Len(base)))
RoundUp(n) == ((n + cfg.bs - 1) \div cfg.bs) * cfg.bs

Content(t, id) == IF t[id].t = "f" THEN Prefix(t[id].data, t[id].size) ELSE <<>>

-----------------------------------------------------------------------------
(* Directories                                                             *)

\* Position of a name in a directory, or 0
RECURSIVE Find(_, _, _)
Find(e, name, i) == IF i > Len(e) THEN 0 ELSE IF e[i].n = name THEN i ELSE Find(e, name, i + 1)

Child(t, dir, name) == LET i == Find(t[dir].e, name, 1) IN IF i = 0 THEN 0 ELSE t[dir].e[i].id

Without(e, name) == LET i == Find(e, name, 1)
                    IN  IF i = 0 THEN e ELSE SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))

WithEntry(t, dir, name, id) == [t EXCEPT ![dir].e = Append(@, [n |-> name, id |-> id])]
WithoutEntry(t, dir, name) == [t EXCEPT ![dir].e = Without(@, name)]

\* Adds a new object.
Added(t, dir, name, obj) == WithEntry(Append(t, obj), dir, name, Len(t) + 1)

-----------------------------------------------------------------------------
(* C10: paths                                                              *)

RECURSIVE Norm(_, _)
Norm(base, comps) ==
    IF comps = <<>> THEN base
    ELSE LET c == Head(comps)
         IN  Norm(CASE c \in {"", "."} -> base
                    [] c = ".." -> IF base = <<>> THEN base ELSE Prefix(base, Len(base) - 1)
                    [] OTHER -> Append(base, c),
                  Tail(comps))

Normal(p) == Norm(IF p.abs THEN <<>> ELSE cwd, p.comps)

\* Looks `comps` up from directory `cur`, whose path (without any links) is `real`.
\* A link that is needed in order to find out what itself points to never leads
\* anywhere; `active` has the links that are being followed.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(t, cur, real, comps, follow, active) ==
    IF comps = <<>> THEN [k |-> "ok", id |-> cur, path |-> real]
    ELSE IF t[cur].t # "d" THEN [k |-> "notdir"]
    ELSE LET name == Head(comps)
             m == Child(t, cur, name)
         IN  IF m = 0 THEN [k |-> "noent", dir |-> cur, path |-> real, name |-> name, last |-> Len(comps) = 1]
             ELSE IF t[m].t = "l" /\ (follow \/ Len(comps) > 1)
             THEN IF <<cur, name>> \in active THEN [k |-> "loop"]
                  ELSE LET x == Walk(t, Root, <<>>, Norm(IF t[m].abs THEN <<>> ELSE real, t[m].tg), TRUE,
                                     active \cup {<<cur, name>>})
                       IN  CASE x.k = "ok" -> Walk(t, x.id, x.path, Tail(comps), follow, active)
                             [] x.k = "noent" -> [x EXCEPT !.last = @ /\ Len(comps) = 1]
                             [] OTHER -> x
             ELSE Walk(t, m, Append(real, name), Tail(comps), follow, active)

LookAt(t, comps, follow) == Walk(t, Root, <<>>, comps, follow, {})
Look(p, follow) == LookAt(t0, Normal(p), follow)

Ok(x) == x.k = "ok"
ErrOf(x) == IF Ok(x) THEN {} ELSE {x.k}
\* The errors when the name is supposed to be new
ErrNew(x) == IF Ok(x) THEN {"exist"} ELSE IF x.k = "noent" /\ x.last THEN {} ELSE {x.k}
Type(x) == t0[x.id].t

When(cond, errs) == IF cond THEN errs ELSE {}

-----------------------------------------------------------------------------
(* Creating all parents                                                    *)

\* [t, errs, made]: the volume after creating the directory `comps` and its
\* missing parents, or why that's impossible
RECURSIVE MakeAll(_, _, _, _)
MakeAll(t, comps, k, mode) ==
    IF k > Len(comps) THEN [t |-> t, errs |-> {}]
    ELSE LET x == LookAt(t, Prefix(comps, k), TRUE)
             y == LookAt(t, Prefix(comps, k), FALSE)
         IN  IF Ok(x)
             THEN IF t[x.id].t = "d" THEN MakeAll(t, comps, k + 1, mode)
                  ELSE [t |-> t, errs |-> {"notdir", "exist"}]
             ELSE IF x.k = "noent" /\ ~Ok(y) /\ y.last
             THEN MakeAll(Added(t, x.dir, x.name, NewObj("d", mode)), comps, k + 1, mode)
             ELSE [t |-> t, errs |-> {x.k, "exist"}]

-----------------------------------------------------------------------------
(* Removing recursively                                                    *)

\* All directories at or below an object
RECURSIVE DirsBelow(_, _)
DirsBelow(t, id) ==
    IF t[id].t # "d" THEN {}
    ELSE {id} \cup UNION {DirsBelow(t, t[id].e[i].id) : i \in 1..Len(t[id].e)}

Emptied(t, dirs) == [id \in 1..Len(t) |-> IF id \in dirs THEN [t[id] EXCEPT !.e = <<>>] ELSE t[id]]

RECURSIVE IsSubseq(_, _)
IsSubseq(a, b) ==
    IF a = <<>> THEN TRUE
    ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) = Head(b) THEN IsSubseq(Tail(a), Tail(b))
    ELSE IsSubseq(a, Tail(b))

\* `now` is `before` after removing a part of the directories `dirs`, and the entry
\* `name` of `dir` only if nothing remained in it.
PartlyRemoved(before, now, dirs, dir, name) ==
    /\ Len(now) = Len(before)
    /\ \A id \in 1..Len(before) :
        IF id \in dirs
        THEN /\ [now[id] EXCEPT !.e = <<>>] = [before[id] EXCEPT !.e = <<>>]
             /\ IsSubseq(now[id].e, before[id].e)
             /\ \A i \in 1..Len(before[id].e) :
                    LET ch == before[id].e[i]
                    IN  (before[ch.id].t = "d" /\ Child(now, id, ch.n) = 0) => now[ch.id].e = <<>>
        ELSE IF id = dir
        THEN \/ now[id] = before[id]
             \/ /\ now[id] = [before[id] EXCEPT !.e = Without(@, name)]
                /\ \A d \in dirs : now[d].e = <<>>
        ELSE now[id] = before[id]

-----------------------------------------------------------------------------
(* Operations on paths: Required(c) is the set of reasons why the operation *)
(* has to fail, Optional(c) are reasons for which it may.  "any" stands for *)
(* every error.                                                            *)

\* Devices, pipes and sockets: names in directories with attributes, but nothing in them
Special(type) == type \notin {"d", "f", "l"}

Writable(fl) == fl.w \/ fl.t

OpenReq(p, fl) ==
    LET x == Look(p, TRUE)
        y == Look(p, FALSE)
        creates == fl.c /\ x.k = "noent" /\ x.last /\ ~(fl.x /\ Ok(y))
    IN  When(fl.t /\ ~fl.w, {"perm"})
        \cup (IF fl.c /\ fl.x THEN ErrNew(y)
              ELSE IF creates THEN {} ELSE ErrOf(x))
        \cup When(creates /\ ~cfg.i, {"rofs"})
        \cup When(Ok(x) /\ Type(x) = "d" /\ Writable(fl), {"isdir"})
        \cup When(Ok(x) /\ Special(Type(x)), {"any"})
        \cup When(Ok(x) /\ Type(x) = "f" /\ Writable(fl) /\ ~cfg.w /\ x.id \notin born, {"rofs"})

OpenOpt(p, fl) ==
    LET x == Look(p, TRUE)
    IN  When(Ok(x) /\ Type(x) = "d", {"isdir"})
        \cup When(Ok(x) /\ Writable(fl) /\ ~cfg.w, {"rofs"})
        \cup When(x.k = "noent" /\ fl.c /\ ~cfg.i, {"rofs"})

WriteFileFlags == [r |-> FALSE, w |-> TRUE, a |-> FALSE, c |-> TRUE, x |-> FALSE, t |-> TRUE, s |-> FALSE]
CreateFlags == [r |-> TRUE, w |-> TRUE, a |-> FALSE, c |-> TRUE, x |-> TRUE, t |-> FALSE, s |-> FALSE]
ReadFlags == [r |-> TRUE, w |-> FALSE, a |-> FALSE, c |-> FALSE, x |-> FALSE, t |-> FALSE, s |-> FALSE]

FlagsOf(c) == CASE c.op = "OpenFile" -> c.fl [] c.op = "Create" -> CreateFlags [] OTHER -> ReadFlags

Required(c) ==
    CASE c.op \in {"Stat", "ReadFile"} -> ErrOf(Look(c.p, TRUE))
      [] c.op = "Lstat" -> ErrOf(Look(c.p, FALSE))
      [] c.op = "Readlink" ->
            LET y == Look(c.p, FALSE)
            IN  When(~cfg.sym, {"notsup"}) \cup ErrOf(y) \cup When(Ok(y) /\ Type(y) # "l", {"invalid"})
      [] c.op \in {"Chdir", "ReadDir"} ->
            LET x == Look(c.p, TRUE) IN ErrOf(x) \cup When(Ok(x) /\ Type(x) # "d", {"notdir"})
      [] c.op \in {"OpenFile", "Open", "Create"} -> OpenReq(c.p, FlagsOf(c))
      [] c.op = "WriteFile" -> OpenReq(c.p, WriteFileFlags)
      [] c.op = "OpenDir" ->
            LET y == Look(c.p, FALSE) IN ErrOf(y)
      [] c.op = "Mkdir" -> ErrNew(Look(c.p, FALSE)) \cup When(~cfg.i, {"rofs"})
      [] c.op = "MkdirAll" ->
            LET x == Look(c.p, TRUE)
                m == MakeAll(t0, Normal(c.p), 1, 0)
            IN  IF Ok(x) /\ Type(x) = "d" THEN {}
                ELSE m.errs \cup (ErrOf(x) \ {"noent"}) \cup When(~cfg.i, {"rofs"})
      [] c.op = "Link" ->
            LET x == Look(c.p, TRUE)
                y == Look(c.p, FALSE)
            IN  When(~cfg.hard, {"notsup"})
                \* the name of a symbolic link may stand for the link itself
                \cup When(~(Ok(y) /\ Type(y) = "l"), ErrOf(x) \cup When(Ok(x) /\ Type(x) = "d", {"perm"}))
                \cup ErrNew(Look(c.q, FALSE))
                \cup When(~cfg.i, {"rofs"})
      [] c.op = "Remove" ->
            LET y == Look(c.p, FALSE)
            IN  ErrOf(y) \cup When(~cfg.d, {"rofs"})
                \cup When(Ok(y) /\ y.id = Root, {"any"})
                \cup When(Ok(y) /\ t0[y.id].e # <<>>, {"notempty"})
      [] c.op = "RemoveAll" ->
            LET y == Look(c.p, FALSE)
            IN  (ErrOf(y) \ {"noent", "notdir"})
                \cup When(Ok(y) /\ ~cfg.d, {"rofs"})
                \cup When(Ok(y) /\ y.id = Root, {"any"})
      [] c.op = "Truncate" ->
            LET x == Look(c.p, TRUE)
            IN  ErrOf(x) \cup When(Ok(x) /\ Type(x) = "d", {"isdir", "invalid"})
                \cup When(~cfg.w /\ ~(Ok(x) /\ x.id \in born), {"rofs"})
      [] c.op \in {"Chmod", "Chown", "Lchown"} ->
            ErrOf(Look(c.p, c.op # "Lchown")) \cup When(~cfg.a, {"rofs"}) \cup When(~cfg.attrs, {"notimpl", "notsup"})
      [] c.op = "Chtimes" ->
            ErrOf(Look(c.p, TRUE)) \cup When(~cfg.w /\ ~cfg.a, {"rofs"}) \cup When(~cfg.attrs, {"notimpl", "notsup"})
      [] c.op = "SameFile" ->
            ErrOf(Look(c.p, TRUE)) \cup ErrOf(Look(c.q, TRUE))
      [] c.op \in {"Getwd", "Normalize", "Features"} -> {}

Optional(c) ==
    CASE c.op = "ReadFile" -> When(Ok(Look(c.p, TRUE)) /\ Type(Look(c.p, TRUE)) # "f", {"any"})
      [] c.op \in {"OpenFile", "Open", "Create"} -> OpenOpt(c.p, FlagsOf(c))
      [] c.op = "WriteFile" -> OpenOpt(c.p, WriteFileFlags)
      [] c.op = "MkdirAll" -> When(~cfg.i, {"rofs"})
      [] c.op = "Link" ->
            LET x == Look(c.p, TRUE) IN ErrOf(x) \cup When(Ok(x) /\ Type(x) = "d", {"perm"})
      [] c.op = "RemoveAll" -> (ErrOf(Look(c.p, FALSE)) \cap {"notdir"}) \cup When(~cfg.d, {"rofs"})
      [] c.op = "Truncate" ->
            LET x == Look(c.p, TRUE) IN When(~cfg.w, {"rofs"}) \cup When(Ok(x) /\ Special(Type(x)), {"any"})
      [] c.op = "Chtimes" -> When(~cfg.w \/ ~cfg.a, {"rofs"})
      [] c.op = "SameFile" -> {"isdir"}
      [] OTHER -> {}

\* The volumes that a successful operation may leave.
SetContent(t, id, data) == [t EXCEPT ![id].data = data, ![id].size = Len(data)]

Opened(p, fl, mode) ==
    LET x == Look(p, TRUE) IN IF Ok(x) THEN t0 ELSE Added(t0, x.dir, x.name, NewObj("f", mode))

\* Which object an opened file is, and its path
OpenedId(p) == LET x == Look(p, TRUE) IN IF Ok(x) THEN x.id ELSE Len(t0) + 1
OpenedPath(p) == LET x == Look(p, TRUE) IN IF Ok(x) THEN x.path ELSE Append(x.path, x.name)

\* The same, except for the content of some objects and the bytes after the end
\* of all objects
SameBut(t, u, ids) ==
    /\ Len(t) = Len(u)
    /\ \A id \in 1..Len(t) :
        /\ [t[id] EXCEPT !.data = <<>>, !.size = 0] = [u[id] EXCEPT !.data = <<>>, !.size = 0]
        /\ id \in ids \/ (t[id].size = u[id].size /\ Content(t, id) = Content(u, id))
Same(t, u) == SameBut(t, u, {})

\* Files whose content is up to handles that are open for writing
Pending == {hs[s].id : s \in {s \in Slots : hs[s].open /\ hs[s].dirty}}

\* The parent directory of what a path without following links refers to
ParentOf(y) == LookAt(t0, Prefix(y.path, Len(y.path) - 1), FALSE).id
LastOf(y) == y.path[Len(y.path)]

\* The volumes that an operation may leave if it succeeds
Outcomes(c) ==
    CASE c.op \in {"OpenFile", "Open", "Create"} ->
            {Opened(c.p, FlagsOf(c), IF c.op = "OpenFile" THEN c.mode ELSE 0)}
      [] c.op = "WriteFile" -> {SetContent(Opened(c.p, WriteFileFlags, c.mode), OpenedId(c.p), c.data)}
      [] c.op = "Mkdir" -> LET y == Look(c.p, FALSE) IN {Added(t0, y.dir, y.name, NewObj("d", c.mode))}
      [] c.op = "MkdirAll" -> {MakeAll(t0, Normal(c.p), 1, c.mode).t}
      [] c.op = "Link" ->
            LET n == Look(c.q, FALSE)
            IN  {WithEntry(t0, n.dir, n.name, z.id) : z \in {z \in {Look(c.p, TRUE), Look(c.p, FALSE)} : Ok(z) /\ Type(z) # "d"}}
      [] c.op = "Remove" -> LET y == Look(c.p, FALSE) IN {WithoutEntry(t0, ParentOf(y), LastOf(y))}
      [] c.op = "RemoveAll" ->
            LET y == Look(c.p, FALSE)
            IN  IF ~Ok(y) THEN {t0}
                ELSE {Emptied(WithoutEntry(t0, ParentOf(y), LastOf(y)), DirsBelow(t0, y.id))}
      [] c.op = "Truncate" -> {SetContent(t0, Look(c.p, TRUE).id, <<>>)}
      [] c.op = "Chmod" -> {[t0 EXCEPT ![Look(c.p, TRUE).id].mode = c.mode]}
      [] c.op \in {"Chown", "Lchown"} ->
            LET id == Look(c.p, c.op = "Chown").id IN {[t0 EXCEPT ![id].uid = c.uid, ![id].gid = c.gid]}
      [] c.op = "Chtimes" ->
            LET id == Look(c.p, TRUE).id
            IN  {[t0 EXCEPT ![id].at = IF cfg.at THEN c.at ELSE @, ![id].mt = IF cfg.mt THEN c.mt ELSE @]}
      [] OTHER -> {t0}

\* What was opened for being truncated is written when it's closed.
Loose(c) == IF c.op \in {"OpenFile", "Open", "Create"} THEN When(FlagsOf(c).t, {OpenedId(c.p)}) ELSE {}

Effect(c) == \E v \in Outcomes(c) : SameBut(objs, v, Pending \cup Loose(c))

\* The volume after an operation that failed.  A failed operation leaves everything
\* as it was; if the implementation failed, what was being written may be incomplete,
\* and recursive operations may have done a part of their work.
FailedEffect(c) ==
    \/ SameBut(objs, t0, Pending)
    \/ /\ faulted
       /\ CASE c.op \in {"OpenFile", "Create", "WriteFile"} ->
                \/ Ok(Look(c.p, TRUE)) /\ SameBut(objs, t0, {OpenedId(c.p)})
                \/ /\ Look(c.p, TRUE).k = "noent"
                   /\ SameBut(objs, Opened(c.p, WriteFileFlags, IF "mode" \in DOMAIN c THEN c.mode ELSE 0), {OpenedId(c.p)})
            [] c.op = "MkdirAll" ->
                \E k \in 0..Len(Normal(c.p)) :
                    SameBut(objs, MakeAll(t0, Prefix(Normal(c.p), k), 1, c.mode).t, Pending)
            [] c.op = "RemoveAll" ->
                LET y == Look(c.p, FALSE)
                IN  /\ Ok(y)
                    /\ PartlyRemoved(t0, objs, DirsBelow(t0, y.id), ParentOf(y), LastOf(y))
            [] OTHER -> FALSE
    \* Creating parents can get stuck halfway for other reasons, too.
    \/ /\ c.op = "MkdirAll"
       /\ SameBut(objs, MakeAll(t0, Normal(c.p), 1, c.mode).t, Pending)

\* What an object looks like from the outside
StatMatches(s, id) ==
    LET o == objs[id]
    IN  /\ s.t = o.t /\ s.id = id /\ s.mode = o.mode
        /\ s.uid = o.uid /\ s.gid = o.gid /\ s.at = o.at /\ s.mt = o.mt
        /\ s.size = o.size \/ id \in Pending

\* A directory entry with everything that's known about it
EntryMatches(e, want) ==
    /\ e.n = want.n /\ StatMatches(e, want.id)
    /\ e.isdir = (e.t = "d") /\ e.notdir = (e.t # "d")
    /\ e.it = e.t /\ e.isize = e.size /\ e.imode = e.mode /\ e.in = e.n /\ e.sys = e.id /\ e.etype = e.t /\ e.imt = e.mt

EntriesMatch(list, want) ==
    /\ Len(list) = Len(want)
    /\ \A i \in 1..Len(list) : EntryMatches(list[i], want[i])

ResultOK(c, r) ==
    CASE c.op = "Stat" -> StatMatches(r.stat, Look(c.p, TRUE).id)
      [] c.op = "Lstat" -> StatMatches(r.stat, Look(c.p, FALSE).id)
      [] c.op = "Readlink" ->
            LET l == t0[Look(c.p, FALSE).id] IN r.target = [abs |-> l.abs, comps |-> l.tg]
      [] c.op = "ReadFile" ->
            LET id == Look(c.p, TRUE).id
            IN  t0[id].t = "f" => (r.data = Content(t0, id) \/ id \in Pending)
      [] c.op = "ReadDir" -> EntriesMatch(r.list, t0[Look(c.p, TRUE).id].e)
      [] c.op = "Getwd" -> r.path = cwd
      [] c.op = "Normalize" -> r.path = Normal(c.p)
      [] c.op = "Features" -> r.same
      [] c.op = "SameFile" -> r.same = (Look(c.p, TRUE).id = Look(c.q, TRUE).id)
      [] OTHER -> TRUE

PathOps == {"Stat", "Lstat", "Readlink", "ReadFile", "ReadDir", "Chdir", "OpenFile", "Open", "Create", "WriteFile",
            "OpenDir", "Mkdir", "MkdirAll", "Link", "Remove", "RemoveAll", "Truncate", "Chmod", "Chown", "Lchown",
            "Chtimes", "Getwd", "Normalize", "SameFile", "Features"}

-----------------------------------------------------------------------------
(* Calls to the driver                                                     *)

Call(c) ==
    /\ Idle
    /\ cl' = c /\ t0' = objs /\ faulted' = FALSE
    /\ UNCHANGED <<objs, cwd, cfg, hs, born>>

Finish == cl' = [op |-> "none"] /\ t0' = <<>> /\ faulted' = FALSE

RetPath(r) ==
    /\ cl.op \in PathOps
    /\ LET req == Required(cl) opt == Optional(cl)
       IN  IF r.err = {}
           THEN /\ req = {}
                /\ Effect(cl)
                /\ ResultOK(cl, r)
           ELSE /\ \/ r.err \cap (req \cup opt) # {}
                   \/ "any" \in req \cup opt
                   \/ faulted
                /\ FailedEffect(cl)
    /\ cwd' = IF r.err = {} /\ cl.op = "Chdir" THEN Look(cl.p, TRUE).path ELSE cwd
    /\ hs' = IF r.err = {} /\ cl.op \in {"OpenFile", "Open", "Create", "OpenDir"}
             THEN LET fl == FlagsOf(cl)
                      x == IF cl.op = "OpenDir" THEN Look(cl.p, FALSE).id ELSE OpenedId(cl.p)
                  IN  [hs EXCEPT ![cl.slot] =
                        [open |-> TRUE, id |-> x, pos |-> 0, dirty |-> fl.t, r |-> fl.r, w |-> fl.w, a |-> fl.a, s |-> fl.s,
                         f |-> IF fl.t \/ objs[x].t # "f" THEN <<>> ELSE Content(objs, x),
                         path |-> IF cl.op = "OpenDir" THEN Look(cl.p, FALSE).path ELSE OpenedPath(cl.p),
                         at |-> 0]]
             ELSE hs
    /\ Finish
    /\ UNCHANGED <<objs, cfg, born>>

-----------------------------------------------------------------------------
(* Calls to open files and directories, C12 and C15                        *)

H == hs[cl.slot]

\* What the file is going to be if the current call succeeds
Offset == CASE cl.op \in {"HWriteAt", "HReadAt"} -> cl.off
            [] cl.op \in {"HWrite", "HWriteString", "HReadFrom"} -> IF H.a THEN Len(H.f) ELSE H.pos
            [] OTHER -> H.pos

Target ==
    CASE cl.op \in {"HWrite", "HWriteAt", "HWriteString", "HReadFrom"} -> Overlay(H.f, Offset, cl.data)
      [] cl.op = "HTruncate" -> Resized(H.f, cl.size)
      [] OTHER -> H.f

Stored(id, content) == objs[id].size = Len(content) /\ Content(objs, id) = content

\* The others didn't change; what's being written may be anything until it's synced.
OthersSame == SameBut(objs, t0, Pending \cup {H.id})
HUpdate(f, pos, dirty) == hs' = [hs EXCEPT ![cl.slot].f = f, ![cl.slot].pos = pos, ![cl.slot].dirty = dirty]

NameOf(path) == IF path = <<>> THEN "/" ELSE path[Len(path)]

IsStreamOp == cl.op \in {"HRead", "HReadAt", "HWrite", "HWriteAt", "HWriteString", "HTruncate", "HSeek", "HSync", "HClose", "HReadFrom", "HWriteTo"}

\* There's nothing in front of a file.
Negative == IF cl.op \in {"HReadAt", "HWriteAt"} THEN cl.off < 0 ELSE cl.op = "HTruncate" /\ cl.size < 0

RetStream(r) ==
    /\ IsStreamOp
    /\ OthersSame
    /\ UNCHANGED cwd
    /\ CASE Negative -> r.err # {} /\ r.n = 0 /\ UNCHANGED hs /\ SameBut(objs, t0, Pending)
         [] cl.op \in {"HRead", "HReadAt"} ->
            LET want == Max2(0, Min2(cl.len, Len(H.f) - Offset))
            IN  /\ ~H.dirty => SameBut(objs, t0, Pending)
                /\ \/ /\ H.r
                      /\ r.data = SubSeq(H.f, Offset + 1, Offset + want)
                      /\ r.n = want
                      /\ \/ r.err = {} /\ (want > 0 \/ cl.len = 0) /\ (cl.op = "HReadAt" => want = cl.len)
                         \/ "eof" \in r.err /\ Offset + cl.len >= Len(H.f)
                      /\ HUpdate(H.f, IF cl.op = "HRead" THEN H.pos + want ELSE H.pos, H.dirty)
                   \/ r.err # {} /\ (faulted \/ (~H.r /\ "perm" \in r.err)) /\ r.n = 0 /\ UNCHANGED hs
         \* everything up to the end is copied, or an error is reported after a part of it
         [] cl.op = "HWriteTo" ->
            LET left == Max2(0, Len(H.f) - H.pos)
            IN  /\ ~H.dirty => SameBut(objs, t0, Pending)
                /\ \/ /\ H.r /\ r.n = Len(r.data) /\ r.n \in 0..left
                      /\ r.data = SubSeq(H.f, H.pos + 1, H.pos + r.n)
                      /\ IF r.err = {} THEN r.n = left ELSE faulted
                      /\ HUpdate(H.f, H.pos + r.n, H.dirty)
                   \/ ~H.r /\ "perm" \in r.err /\ r.n = 0 /\ UNCHANGED hs
         [] cl.op \in {"HWrite", "HWriteAt", "HWriteString", "HReadFrom"} ->
            \/ /\ H.w /\ ~(H.a /\ cl.op = "HWriteAt")
               /\ r.n \in 0..Len(cl.data)
               /\ \/ r.err = {} /\ r.n = Len(cl.data)
                  \/ r.err # {} /\ faulted
               /\ r.err = {} /\ H.s /\ cl.data # <<>> => Stored(H.id, Target)
               /\ HUpdate(Overlay(H.f, Offset, Prefix(cl.data, r.n)),
                          IF cl.op = "HWriteAt" THEN H.pos ELSE IF r.n = 0 THEN r.pos ELSE Offset + r.n,
                          ~(r.err = {} /\ H.s) \/ (H.dirty /\ cl.data = <<>>))
            \/ /\ ~H.w \/ (H.a /\ cl.op = "HWriteAt")
               /\ "perm" \in r.err /\ r.n = 0
               /\ UNCHANGED hs
         [] cl.op = "HTruncate" ->
            \/ /\ H.w
               /\ \/ r.err = {} /\ r.size = cl.size
                  \/ r.err # {} /\ faulted /\ r.size \in {Len(H.f), cl.size}
               /\ r.err = {} /\ H.s => Stored(H.id, Target)
               /\ HUpdate(IF r.size = Len(H.f) THEN H.f ELSE Target, H.pos, ~(r.err = {} /\ H.s))
            \/ ~H.w /\ "perm" \in r.err /\ UNCHANGED hs
         [] cl.op = "HSeek" ->
            LET to == cl.off + CASE cl.whence = 0 -> 0 [] cl.whence = 1 -> H.pos [] OTHER -> Len(H.f)
            IN  \/ to >= 0 /\ r.err = {} /\ r.n = to /\ HUpdate(H.f, to, H.dirty)
                \/ to < 0 /\ r.err # {} /\ UNCHANGED hs
         [] cl.op = "HSync" ->
            \/ /\ r.err = {}
               /\ objs[H.id].t = "f" => Stored(H.id, H.f)
               /\ HUpdate(H.f, H.pos, FALSE)
            \/ r.err # {} /\ faulted /\ UNCHANGED hs
         \* the file is closed even if it couldn't be stored
         [] cl.op = "HClose" ->
            /\ IF r.err = {} THEN objs[H.id].t = "f" => Stored(H.id, H.f) ELSE faulted
            /\ hs' = [hs EXCEPT ![cl.slot] = Closed]
    /\ (cl.op # "HClose" /\ objs[H.id].t # "l") => (r.size = Len(hs'[cl.slot].f) /\ r.pos = hs'[cl.slot].pos)

\* C15: pieces of a directory
RetReadDir(r) ==
    /\ cl.op = "HReadDir"
    /\ SameBut(objs, t0, Pending)
    /\ UNCHANGED cwd
    /\ IF objs[H.id].t # "d" THEN "notdir" \in r.err /\ r.list = <<>> /\ UNCHANGED hs
       ELSE LET all == objs[H.id].e
                left == Len(all) - H.at
                k == Len(r.list)
            IN  \/ /\ r.err # {} /\ faulted /\ UNCHANGED hs
                \/ /\ r.err = {}
                   /\ k <= left
                   /\ cl.n <= 0 => k = left
                   /\ cl.n > 0 => (k <= cl.n /\ k > 0)
                   /\ IF cl.kind = "Readdirnames"
                      THEN \A i \in 1..k : r.list[i].n = all[H.at + i].n
                      ELSE EntriesMatch(r.list, SubSeq(all, H.at + 1, H.at + k))
                   /\ hs' = [hs EXCEPT ![cl.slot].at = @ + k]
                \/ "eof" \in r.err /\ cl.n > 0 /\ left = 0 /\ k = 0 /\ UNCHANGED hs

RetHandle(r) ==
    /\ cl.op \in {"HStat", "HName", "HChmod", "HChown", "HChdir"}
    /\ UNCHANGED hs
    /\ cwd' = IF cl.op = "HChdir" /\ r.err = {} THEN H.path ELSE cwd
    /\ CASE cl.op = "HStat" ->
            /\ SameBut(objs, t0, Pending)
            /\ r.err = {}
            /\ r.info.t = objs[H.id].t /\ r.info.id = H.id /\ r.info.mode = objs[H.id].mode
            /\ r.info.n = NameOf(H.path)
            /\ r.info.isdir = (objs[H.id].t = "d")
            /\ objs[H.id].t = "f" => r.info.size = Len(H.f)
            /\ r.info.sys = H.id /\ r.info.mt = objs[H.id].mt
            \* it's a directory entry as well
            /\ r.entry = <<objs[H.id].t, H.id, r.info.size, r.info.n>>
         [] cl.op = "HName" -> SameBut(objs, t0, Pending) /\ r.name = NameOf(H.path)
         [] cl.op = "HChdir" ->
            /\ SameBut(objs, t0, Pending)
            /\ IF objs[H.id].t = "d" THEN r.err = {} ELSE "notdir" \in r.err
         [] OTHER ->
            \/ /\ r.err = {} /\ cfg.a /\ cfg.attrs
               /\ SameBut(objs, IF cl.op = "HChmod" THEN [t0 EXCEPT ![H.id].mode = cl.mode]
                                ELSE [t0 EXCEPT ![H.id].uid = cl.uid, ![H.id].gid = cl.gid], Pending)
            \/ /\ \/ r.err # {} /\ faulted
                  \/ ~cfg.a /\ "rofs" \in r.err
                  \/ ~cfg.attrs /\ r.err \cap {"notsup", "notimpl"} # {}
               /\ SameBut(objs, t0, Pending)

RetH(r) ==
    /\ \/ RetStream(r) \/ RetReadDir(r) \/ RetHandle(r)
    /\ Finish
    /\ UNCHANGED <<objs, cfg, born>>

-----------------------------------------------------------------------------
(* C32: what a call leaves behind.  Every handle that the implementation gave  *)
(* out has been closed again, except for those of the open files, and none was *)
(* used (or closed) after it had been closed.  Closing a file reports that its *)
(* handle couldn't be closed.                                                  *)
Released(r) ==
    /\ r.held = Cardinality({s \in Slots : hs'[s].open})
    /\ r.stale = 0
    /\ (cl.op = "HClose" /\ r.err = {}) => r.unclosed = 0

-----------------------------------------------------------------------------
(* Calls the driver makes to the implementation, C13 and C14               *)

Live(id) == id \in 1..Len(objs)
ValidName(name) == name \notin {"", ".", "..", "/"}
Fails(ok) == faulted' = (faulted \/ ~ok)

\* Whether an object is still in some directory
Linked(id) == id = Root \/ \E d \in 1..Len(objs) : \E i \in 1..Len(objs[d].e) : objs[d].e[i].id = id

EGet(dir, name, own, ok) ==
    /\ ~Idle /\ own
    /\ Live(dir) /\ objs[dir].t = "d" /\ ValidName(name)
    /\ Fails(ok)
    /\ UNCHANGED <<objs, cwd, cfg, hs, cl, t0, born>>

\* Closing a handle failed.  It's gone anyway.
ECloseFails ==
    /\ ~Idle
    /\ Fails(FALSE)
    /\ UNCHANGED <<objs, cwd, cfg, hs, cl, t0, born>>

EList(dir, ok) ==
    /\ ~Idle
    /\ Live(dir) /\ objs[dir].t = "d"
    /\ Fails(ok)
    /\ UNCHANGED <<objs, cwd, cfg, hs, cl, t0, born>>

ECreate(dir, name, type, mode, own, ok) ==
    /\ ~Idle /\ own
    /\ cfg.i
    /\ Live(dir) /\ objs[dir].t = "d" /\ Linked(dir) /\ ValidName(name)
    /\ Child(objs, dir, name) = 0
    /\ type \in {"d", "f"}
    /\ Fails(ok)
    /\ IF ok THEN /\ objs' = Added(objs, dir, name, NewObj(type, mode))
                  /\ born' = born \cup {Len(objs) + 1}
       ELSE UNCHANGED <<objs, born>>
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0>>

EUnlink(dir, name, id, ok) ==
    /\ ~Idle
    /\ cfg.d
    /\ Live(id) /\ id # Root /\ Child(objs, dir, name) = id
    /\ objs[id].e = <<>>
    /\ Fails(ok)
    /\ objs' = IF ok THEN WithoutEntry(objs, dir, name) ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

EHardLink(id, dir, name, own, ok) ==
    /\ ~Idle /\ own
    /\ cfg.i /\ cfg.hard
    /\ Live(id) /\ objs[id].t # "d"
    /\ Live(dir) /\ objs[dir].t = "d" /\ ValidName(name) /\ Child(objs, dir, name) = 0
    /\ Fails(ok)
    /\ objs' = IF ok THEN WithEntry(objs, dir, name, id) ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

MayWrite(id) == cfg.w \/ id \in born

\* Whole blocks inside of the object's current bounds
InBounds(id, index, len) ==
    /\ len > 0 /\ len % cfg.bs = 0
    /\ index >= 0 /\ index * cfg.bs + len <= RoundUp(objs[id].size)

ERead(id, index, len, ok) ==
    /\ ~Idle
    /\ Live(id) /\ objs[id].t # "d" /\ InBounds(id, index, len)
    /\ Fails(ok)
    /\ UNCHANGED <<objs, cwd, cfg, hs, cl, t0, born>>

EWrite(id, index, data, ok) ==
    /\ ~Idle
    /\ Live(id) /\ objs[id].t = "f" /\ MayWrite(id) /\ InBounds(id, index, Len(data))
    /\ Fails(ok)
    /\ objs' = IF ok THEN [objs EXCEPT ![id].data = Overlay(@, index * cfg.bs, data)] ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

\* Sizes are in bytes: never less than the file has or gets.  (Rounding it up to
\* blocks on the way is fine.)
EResize(id, size, ok, data) ==
    /\ ~Idle
    /\ Live(id) /\ (objs[id].t = "f" \/ (Special(objs[id].t) /\ cl.op = "Truncate")) /\ MayWrite(id)
    /\ CASE IsStreamOp -> H.id = id /\ size >= Min2(Len(H.f), Len(Target))
         [] OTHER -> cl.op \in {"OpenFile", "WriteFile", "Truncate"}
    /\ Fails(ok)
    /\ objs' = IF ok THEN [objs EXCEPT ![id].size = size, ![id].data = data] ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

EChmod(id, mode, extra, ok) ==
    /\ ~Idle /\ cfg.a /\ Live(id)
    /\ extra = 0                      \* only permission bits
    /\ Fails(ok)
    /\ objs' = IF ok THEN [objs EXCEPT ![id].mode = mode] ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

EChown(id, uid, gid, ok) ==
    /\ ~Idle /\ cfg.a /\ Live(id)
    /\ Fails(ok)
    /\ objs' = IF ok THEN [objs EXCEPT ![id].uid = uid, ![id].gid = gid] ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

\* Times are small numbers; -1 is the undefined timestamp.
EChtimes(id, created, at, mt, changed, deleted, ok) ==
    /\ ~Idle /\ (cfg.w \/ cfg.a) /\ Live(id)
    /\ created = -1 /\ deleted = -1
    /\ changed # -1 => cfg.ct
    /\ at # -1 => cfg.at
    /\ mt # -1 => cfg.mt
    /\ Fails(ok)
    /\ objs' = IF ok THEN [objs EXCEPT ![id].at = IF at = -1 THEN @ ELSE at, ![id].mt = IF mt = -1 THEN @ ELSE mt] ELSE objs
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, born>>

-----------------------------------------------------------------------------
(* Somebody else puts a symbolic link into the volume, between calls.      *)
Plant(dir, name, abs, tg, size) ==
    /\ Idle
    /\ objs' = Added(objs, dir, name, [NewObj("l", 511) EXCEPT !.abs = abs, !.tg = tg, !.size = size])
    /\ UNCHANGED <<cwd, cfg, hs, cl, t0, faulted, born>>

InitWith(volume, config) ==
    /\ objs = volume /\ cfg = config
    /\ cwd = <<>> /\ hs = [s \in Slots |-> Closed]
    /\ cl = [op |-> "none"] /\ t0 = <<>> /\ faulted = FALSE /\ born = {}

-----------------------------------------------------------------------------
(* Properties of the design                                                *)

TypeOK ==
    /\ Len(objs) >= 1 /\ objs[Root].t = "d"
    /\ \A id \in 1..Len(objs) :
        /\ objs[id].t \in {"d", "f", "l", "p", "c", "b", "s", "i"}
        /\ objs[id].t # "d" => objs[id].e = <<>>
        /\ Len(objs[id].data) >= objs[id].size \/ objs[id].t = "l"

\* Names are unique, and directories form a tree.
IsTree ==
    \A d \in 1..Len(objs) :
        /\ \A i, j \in 1..Len(objs[d].e) : objs[d].e[i].n = objs[d].e[j].n => i = j
        /\ \A i \in 1..Len(objs[d].e) :
            LET ch == objs[d].e[i].id
            IN  /\ ch \in 2..Len(objs)
                /\ objs[ch].t = "d" =>
                    \A d2 \in 1..Len(objs) : \A k \in 1..Len(objs[d2].e) :
                        objs[d2].e[k].id = ch => (d2 = d /\ k = i)

\* C13
Permitted ==
    [][cfg' = cfg =>
       /\ ~cfg.i => Len(objs') = Len(objs) \/ Idle
       /\ ~cfg.d => \A d \in 1..Len(objs) : \A i \in 1..Len(objs[d].e) :
                        Child(objs', d, objs[d].e[i].n) = objs[d].e[i].id
       /\ ~cfg.w => \A id \in (1..Len(objs)) \ born : objs'[id].data = objs[id].data
       /\ ~cfg.a => \A id \in 1..Len(objs) : objs'[id].mode = objs[id].mode /\ objs'[id].uid = objs[id].uid]_vars

\* C11: no operation ever replaces an existing name by another object.
NamesStable ==
    [][cl' = cl => \A d \in 1..Len(objs) : \A i \in 1..Len(objs[d].e) :
            Child(objs', d, objs[d].e[i].n) \in {0, objs[d].e[i].id}]_vars
=============================================================================
