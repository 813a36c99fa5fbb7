----------------------------- MODULE TraceFsTree -----------------------------
(* Accepts recorded traces of the real driver that FsTree allows.          *)
EXTENDS FsTree, Json, IOUtils

VARIABLES ep, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]

Set(seq) == {seq[i] : i \in 1..Len(seq)}
Result(e) == [x \in DOMAIN e \ {"e"} |-> IF x = "err" THEN Set(e.err) ELSE e[x]]
CallOf(e) == [x \in DOMAIN e \ {"e"} |-> e[x]]

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ LET e == Traces[ep].ev[1] IN e.e = "new" /\ InitWith(e.objs, e.cfg)

Step(e) ==
    CASE e.e = "call"    -> Call(CallOf(e))
      [] e.e = "ret"     -> cl.op = e.op /\ (RetPath(Result(e)) \/ RetH(Result(e))) /\ Released(Result(e))
      [] e.e = "get"     -> EGet(e.dir, e.name, e.own, e.ok)
      [] e.e = "list"    -> EList(e.id, e.ok)
      [] e.e = "closefail" -> ECloseFails
      [] e.e = "create"  -> ECreate(e.dir, e.name, e.t, e.mode, e.own, e.ok)
      [] e.e = "unlink"  -> EUnlink(e.dir, e.name, e.id, e.ok)
      [] e.e = "link"    -> EHardLink(e.id, e.dir, e.name, e.own, e.ok)
      [] e.e = "readb"   -> ERead(e.id, e.index, e.len, e.ok)
      [] e.e = "writeb"  -> EWrite(e.id, e.index, e.data, e.ok)
      [] e.e = "resize"  -> EResize(e.id, e.size, e.ok, e.data)
      [] e.e = "chmod"   -> EChmod(e.id, e.mode, e.extra, e.ok)
      [] e.e = "chown"   -> EChown(e.id, e.uid, e.gid, e.ok)
      [] e.e = "chtimes" -> EChtimes(e.id, e.created, e.at, e.mt, e.changed, e.deleted, e.ok)
      [] e.e = "plant"   -> Plant(e.dir, e.name, e.abs, e.tg, e.size)
      \* the harness' volume is the specification's
      [] e.e = "dump"    -> Idle /\ e.objs = objs /\ UNCHANGED vars
      [] OTHER           -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<vars, ep, l>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, ep, l>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
