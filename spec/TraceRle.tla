------------------------------ MODULE TraceRle -------------------------------
(* Accepts what the real compression functions and tools did if it is what   *)
(* Rle says. C24, C25, C26. gzip itself is trusted: what is in a compressed  *)
(* stream, and whether it is sound, is found out with Go's own package.      *)
EXTENDS Rle, FiniteSets, TLC, Json, IOUtils

VARIABLES cl, pos, fault, ep, l
vars == <<cl, pos, fault, ep, l>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
Set(seq) == {seq[i] : i \in 1..Len(seq)}
None == [op |-> ""]

TraceInit == ep \in 1..Len(Traces) /\ l = 2 /\ Traces[ep].ev[1].e = "new" /\ cl = None /\ pos = 1 /\ fault = FALSE

Call(e) == cl = None /\ cl' = e /\ pos' = 1 /\ fault' = FALSE

\* The next run, the end, or a failure of the source. The run that was interrupted by a
\* failure may be returned or not.
Run(e) ==
    LET err == Set(e.err)
    IN  /\ cl.op = "runs"
        /\ fault' = e.fault
        /\ IF e.n > 0
           THEN /\ pos <= Len(cl.in) /\ cl.in[pos] = <<e.n, e.b>>
                /\ err = {} \/ (err = {"eof"} /\ pos = Len(cl.in) /\ ~e.fault)
                /\ pos' = pos + 1
           ELSE /\ e.n = 0
                /\ IF e.fault THEN pos >= Len(cl.in) /\ err # {} /\ "eof" \notin err
                   ELSE err = {"eof"} /\ pos > Len(cl.in)
                /\ pos' = pos
        /\ cl' = cl

Encoded(e) ==
    LET want == Encode(cl.kind, cl.in)
    IN  /\ PrefixOf(e.out, want)
        /\ IF e.fault THEN e.err # <<>>
           ELSE e.err = <<>> /\ e.out = want /\ e.n = Total(want)

Decoded(kind, in, sound, e) ==
    LET s == Decode(kind, in)
    IN  /\ PrefixOf(e.out, Potential(s))
        /\ IF e.fault \/ ~sound THEN e.err # <<>>
           ELSE IF ~Complete(s) THEN kind = "8" => "unexpectedEOF" \in Set(e.err)
           ELSE e.err = <<>> /\ e.out = s.out /\ e.n = Total(s.out)
        /\ ~Complete(s) => e.err # <<>>

Zipped(e) ==
    IF e.fault THEN e.err # <<>>
    ELSE e.err = <<>> /\ e.sound /\ e.plain = Encode("8", cl.in) /\ e.n = e.written

ToolZipped(e) ==
    IF e.exit = 0
    THEN ~cl.must /\ ~e.full /\ e.sound /\ e.plain = Encode("8", cl.in) /\ e.shown
    ELSE cl.must \/ cl.may

ToolUnzipped(e) ==
    LET s == Decode("8", cl.in)
    IN  IF e.exit = 0
        THEN /\ ~cl.must /\ cl.sound /\ Complete(s)
             /\ IF e.full THEN s.out = <<>> ELSE e.shown /\ e.out = s.out
        ELSE cl.must \/ cl.may \/ ~cl.sound \/ ~Complete(s)

Ret(e) ==
    /\ e.op = cl.op
    /\ CASE e.op = "runs" -> fault \/ pos = Len(cl.in) + 1
         [] e.op \in {"enc8", "encr"} -> Encoded(e)
         [] e.op \in {"dec8", "decr"} -> Decoded(cl.kind, cl.in, TRUE, e)
         [] e.op = "zip" -> Zipped(e)
         [] e.op = "unzip" -> Decoded("8", cl.in, cl.sound, e)
         [] e.op = "tobytes" -> Decoded("8", cl.in, cl.sound, e)
         [] e.op = "toolzip" -> ToolZipped(e)
         [] e.op = "toolunzip" -> ToolUnzipped(e)
         [] e.op = "noargs" -> e.failed
    /\ cl' = None /\ UNCHANGED <<pos, fault>>

Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "run" -> Run(e)
      [] e.e = "ret" -> Ret(e)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED vars
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
