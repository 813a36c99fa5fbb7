---------------------------- MODULE TraceFatBoot ----------------------------
(* Accepts the decodings of boot sectors, recorded from the real code, that  *)
(* FatBoot prescribes.                                                       *)
EXTENDS FatBoot, TLC, Json, IOUtils

VARIABLES ep, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]

TraceInit == ep \in 1..Len(Traces) /\ l = 1

DecodeOk(e) ==
    IF e.broken \/ Rejected(e.b) THEN e.err # <<>>
    ELSE IF e.err # <<>> THEN ~Sane(e.b)
    ELSE e.geo = Geometry(e.b)

Step(e) ==
    CASE e.e = "new"     -> TRUE
      [] e.e = "call"    -> TRUE
      [] e.e = "decoded" -> DecodeOk(e) /\ (~e.broken => Layout(e.b))
      [] e.e = "version" -> e.version = Version(e.n)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<ep, l>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<ep, l>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
