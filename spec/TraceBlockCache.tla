--------------------------- MODULE TraceBlockCache ---------------------------
(* Accepts the traces recorded from the real block cache that BlockCache   *)
(* allows: every event must be explained by an action of BlockCache.  An   *)
(* episode that can't be continued is a deadlock.                          *)
EXTENDS BlockCache, Json, IOUtils

VARIABLES ep, l

Traces == ndJsonDeserialize(IOEnv.TRACE)

Ev == Traces[ep].ev[l]
tvars == <<ep, l>>

Set(seq) == {seq[i] : i \in 1..Len(seq)}
Result(ev) == [n |-> ev.n, err |-> Set(ev.err), data |-> ev.data]

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ LET e == Traces[ep].ev[1] IN
       /\ e.e = "new"
       /\ InitWith(IF e.kind = "inferred" THEN "stream" ELSE e.kind,
                   IF e.kind = "slice" THEN "forbid" ELSE e.rz,
                   e.grow, e.bs,
                   IF e.kind \in {"inferred", "slice"} THEN Len(e.img) \div e.bs ELSE e.nb,
                   e.img)

CallOf(e) == [x \in DOMAIN e \ {"e"} |-> e[x]]

Step(e) ==
    CASE e.e = "call"   -> Call(CallOf(e))
      [] e.e = "fetch"  -> Fetch(e.b, e.len, e.ok)
      [] e.e = "flush"  -> Flush(e.b, e.data, e.ok, e.after)
      [] e.e = "resize" -> kind = "cb" /\ ResizeStorage(e.n, e.ok, e.img)
      [] e.e = "swrite" -> StreamWrite(e.off, e.data, e.n, e.ok)
      [] e.e = "sfail"  -> StreamFail(e.what)
      [] e.e = "strunc" ->
            /\ kind = "stream"
            /\ e.size = cl.n * bs \* C05: truncated to exactly the new size
            /\ ResizeStorage(cl.n, e.ok,
                   [i \in 1..(cl.n * bs) |-> IF i <= Len(img) THEN img[i] ELSE 0])
      [] e.e = "ret"    ->
            /\ cl.op = e.op
            /\ Ret(Result(e))
            \* C05: nothing else in the stream was changed
            /\ kind # "cb" => e.img = img'
      [] e.e = "poke"   -> Poke(e.start, e.count, e.data)
      [] e.e = "info"   -> Info(e)
      [] OTHER          -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<vars, tvars>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tvars>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
