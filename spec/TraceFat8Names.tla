--------------------------- MODULE TraceFat8Names ---------------------------
EXTENDS Fat8Names, Json, IOUtils

VARIABLES ep, l, cl

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]

TraceInit == ep \in 1..Len(Traces) /\ l = 2 /\ cl = FALSE /\ Init

Step(e) ==
    CASE e.e = "call" -> ~cl /\ cl' = TRUE /\ UNCHANGED taken
      [] e.e = "ret"  -> /\ cl /\ cl' = FALSE
                         /\ IF e.err = <<>> THEN e.backerr = <<>> /\ Convert(e.name, e.raw, e.back) ELSE Refuse(e.name)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<taken, ep, l, cl>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_<<taken, ep, l, cl>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
