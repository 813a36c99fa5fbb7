------------------------------ MODULE TraceFat -------------------------------
(* Accepts the traces recorded from the real FATDriver that FatTree allows.  *)
EXTENDS FatTree, Json, IOUtils

VARIABLES ep, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
tvars == <<ep, l>>

RECURSIVE Pairs(_)
Pairs(s) == IF s = <<>> THEN << >> ELSE (s[1][1] :> s[1][2]) @@ Pairs(Tail(s))
Volume(e) == [spc |-> e.spc, bpc |-> e.bpc, n |-> e.n, eoc |-> e.eoc,
              fat |-> Pairs(e.fat), data |-> Pairs(e.data),
              root |-> e.root]

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ LET e == Traces[ep].ev[1] IN e.e = "new" /\ InitWith(Volume(e))
    /\ sane = Consistent

Decoded(e) ==
    IF e.short THEN e.err # <<>>
    ELSE IF EndMark(e.b) THEN "noent" \in Set(e.err)
    ELSE /\ e.err = <<>>
         /\ EntryOk(Entry(e.b, e.bpc), e.entry, e.bpc)
         /\ StatOk(Entry(e.b, e.bpc), e.entry.stat, e.bpc)

Step(e) ==
    CASE e.e = "call"   -> Start(e)
      [] e.e = "fault"  -> Fault
      [] e.e = "delete" -> DeleteEntry(e.name, e.first, e.parent, e.failing)
      [] e.e = "free"   -> Free(e.c, e.failing)
      [] e.e = "update" -> Update(e.entry, e.failing)
      [] e.e = "ret"    -> Done(e)
      [] e.e = "decode" -> cl.op = "" /\ UNCHANGED fvars
      [] e.e = "decoded" -> Decoded(e) /\ UNCHANGED fvars
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<fvars, tvars>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tvars>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
