------------------------------ MODULE TraceFlags ------------------------------
(* Accepts what the real flag functions return if it is what Flags says.     *)
EXTENDS Flags, TLC, Json, IOUtils

VARIABLES cl, ep, l
vars == <<cl, ep, l>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
Set(seq) == {seq[i] : i \in 1..Len(seq)}
None == [op |-> ""]

TraceInit == ep \in 1..Len(Traces) /\ l = 2 /\ Traces[ep].ev[1].e = "new" /\ cl = None

Call(e) == cl = None /\ cl' = e

\* What the constants for everything stand for
Preset(name) == CASE name = "all" -> Permissions [] name = "readwrite" -> {"read", "write"}

Ret(e) ==
    /\ e.op = cl.op
    /\ CASE e.op = "os" ->
            LET t == Translate(cl.mode, Set(cl.bits)) IN e.mode = t.mode /\ Set(e.bits) = t.bits /\ e.rest = 0
         [] e.op = "io" -> Set(e.yes) = IOQueries(cl.mode, Set(cl.bits))
         [] e.op = "mount" -> Set(e.yes) = MountQueries(Set(cl.bits))
         [] e.op = "const" -> e.value = ModeConst(cl.name)
         \* rw-r--r-- and rwxr-xr-x
         [] e.op = "default" -> e.rest = 0 /\ e.dir = (cl.name = "dir") /\ e.perm = IF e.dir THEN 493 ELSE 420
         [] e.op = "mask" -> Set(e.bits) = StandardMountBits /\ e.rest = 0
         [] e.op = "preset" -> Set(e.yes) = MountQueries(Preset(cl.name))
    /\ cl' = None

Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "ret" -> Ret(e)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED vars
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
