----------------------------- MODULE TraceErrors ------------------------------
(* Accepts what the real errors match and say if it is what Errors says.     *)
EXTENDS Errors, Json, IOUtils

VARIABLES heap, cl, ep, l
vars == <<heap, cl, ep, l>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
Set(seq) == {seq[i] : i \in 1..Len(seq)}
None == [op |-> ""]

TraceInit == ep \in 1..Len(Traces) /\ l = 2 /\ Traces[ep].ev[1].e = "new" /\ heap = <<>> /\ cl = None

Call(e) == cl = None /\ cl' = e /\ heap' = heap

\* What was seen of the i-th error. Comparing with later ones must be right as well.
Fits(h, i, e) ==
    LET is == Set(e.is)
    IN  /\ MustMatch(h, i) \subseteq is /\ is \subseteq MayMatch(h, i)
        /\ Set(e.names) = h[i].names
        /\ Within(h[i].parts, e.parts)
        /\ e.driver = h[i].driver
        /\ e.path = h[i].path

Ret(e) ==
    /\ e.op = cl.op
    /\ CASE e.op = "nil" -> e.nil /\ heap' = heap
         [] OTHER ->
            /\ ~e.nil
            /\ heap' = Append(heap, Result(heap, cl))
            /\ Fits(heap', Len(heap'), e)
            \* nothing is lost, and nothing is added, by casting
            /\ e.op = "cast" => /\ e.text
                                /\ Unchanged(heap[cl.of]) => e.same
    /\ cl' = None

\* An error from before, looked at again
Again(e) == cl = None /\ Fits(heap, e.i, e) /\ UNCHANGED <<heap, cl>>

Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "ret" -> Ret(e)
      [] e.e = "again" -> Again(e)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED vars
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
