--------------------------- MODULE TraceByteStream ---------------------------
(* Accepts recorded traces of real streams that ByteStream allows.         *)
EXTENDS ByteStream, Json, IOUtils

VARIABLES ep, l, op

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]

Set(seq) == {seq[i] : i \in 1..Len(seq)}
Result(e) == [n |-> e.n, err |-> Set(e.err), data |-> e.data, size |-> e.size, pos |-> e.pos]
CallOf(e) == [x \in DOMAIN e \ {"e"} |-> e[x]]

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ op = [valid |-> FALSE, trunc |-> FALSE]
    /\ LET e == Traces[ep].ev[1] IN e.e = "new" /\ InitWith(e.bs, e.cap, e.img)

Step(e) ==
    CASE e.e = "open"   -> /\ StartOpen([r |-> e.r, w |-> e.w, a |-> e.a, s |-> e.s], e.size, e.t)
                           /\ op' = [valid |-> e.size >= 0 /\ e.size <= Len(img), trunc |-> e.t]
      [] e.e = "opened" -> Opened(op.valid, op.trunc, Result(e)) /\ UNCHANGED op
      [] OTHER ->
        /\ UNCHANGED op
        /\ CASE e.e = "call"    -> Call(CallOf(e))
             [] e.e = "fetch"   -> Fetch(e.b, e.len, e.ok)
             [] e.e = "flush"   -> Flush(e.b, e.data, e.ok, e.after)
             [] e.e = "resize"  -> ResizeStorage(e.n, e.ok, e.img)
             [] e.e = "setsize" -> SetSize(e.n, e.ok)
             [] e.e = "rread"   -> SourceRead(e.data, e.end)
             [] e.e = "wwrite"  -> TargetWrite(e.data, e.n, e.ok)
             [] e.e = "ret"     -> cl.op = e.op /\ Ret(Result(e))
             [] OTHER           -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<vars, ep, l, op>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, ep, l, op>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
