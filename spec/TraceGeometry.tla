---------------------------- MODULE TraceGeometry -----------------------------
(* Accepts what the real table of geometries returns, and the sizes that are *)
(* computed, if they are what Geometry says.                                 *)
EXTENDS Geometry, TLC, Json, IOUtils

VARIABLES table, cl, ep, l
vars == <<table, cl, ep, l>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
None == [op |-> ""]

TraceInit ==
    /\ ep \in 1..Len(Traces) /\ l = 2 /\ Traces[ep].ev[1].e = "new"
    /\ table = Traces[ep].ev[1].table /\ cl = None

Call(e) == cl = None /\ cl' = e /\ table' = table

Factors(f) == <<f.bits, f.units, f.sectors, f.tracks, f.heads>>
Sized(e, f) == Smallest(e.size, Product(Factors(f)))

Ret(e) ==
    /\ e.op = cl.op
    /\ CASE e.op = "lookup" ->
            LET r == Rows(table, cl.slug)
            IN  IF r = {} THEN ~e.found
                ELSE e.found /\ \E i \in r : e.row = table[i] /\ Sized(e, table[i])
         [] e.op = "size" -> Sized(e, cl.of)
         [] e.op = "fsstat" -> e.size = Times(cl.blocksize, cl.blocks) /\ e.nothing
    /\ cl' = None /\ table' = table

Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "ret" -> Ret(e)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED vars
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
