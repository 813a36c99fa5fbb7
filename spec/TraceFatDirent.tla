--------------------------- MODULE TraceFatDirent ---------------------------
(* Accepts the traces of real directory entries that FatDirent allows.       *)
EXTENDS FatDirent, Json, IOUtils

VARIABLES ep, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
tvars == <<ep, l>>

NoVolume == [spc |-> 1, bpc |-> 32, n |-> 1, eoc |-> 65528, fat |-> << >>, data |-> << >>, root |-> <<>>]

\* After each call, everything that can be seen of all entries
AllShown(s, seen) == Len(seen) = Len(s) /\ TRUE = \A i \in 1..Len(s) : Shows(s[i], seen[i])

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ InitWith(NoVolume) /\ sane = FALSE
    /\ LET e == Traces[ep].ev[1]
       IN  ents = [i \in 1..Len(e.raw) |-> Decode(e.raw[i], e.bpc)]

Step(e) ==
    CASE e.e = "shown" -> AllShown(ents, e.seen) /\ UNCHANGED ents
      [] e.e = "set"  -> /\ SetTime(e.i, e.field, e.t) /\ SetOk(ents[e.i], e.field, e.t, Set(e.err))
                         /\ AllShown(ents', e.seen)
      [] e.e = "copy" -> Copy(e.i) /\ AllShown(ents', e.seen)
      [] e.e = "same" -> SameOk(ents[e.i], ents[e.j], e.same) /\ UNCHANGED ents
      [] e.e = "call" -> UNCHANGED ents
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<fvars, ents, tvars>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep /\ UNCHANGED fvars

TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, ents, tvars>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
