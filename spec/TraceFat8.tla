------------------------------ MODULE TraceFat8 ------------------------------
(* Accepts the traces recorded from the real FAT8 driver that Fat8 allows.  *)
EXTENDS Fat8, Json, IOUtils

VARIABLES ep, l, cl

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
tvars == <<ep, l, cl>>

ASSUME Disjoint

Set(seq) == {seq[i] : i \in 1..Len(seq)}

AsImage(list) == [s \in {list[i].s : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].s = s].v]

TraceInit ==
    /\ ep \in 1..Len(Traces)
    /\ l = 2
    /\ cl = [op |-> ""]
    /\ LET e == Traces[ep].ev[1] IN e.e = "new" /\ InitWith(AsImage(e.img), e.size, e.file)

ErrOk(want, got) == CASE want = "none" -> got = {}
                      [] want = "any" -> got # {}
                      [] OTHER -> want \in got

\* Exactly these sectors were changed, to exactly this
Observed(e) ==
    /\ e.size = size'
    /\ Differ(img, img') = {e.chg[i].s : i \in 1..Len(e.chg)}
    /\ TRUE = \A i \in 1..Len(e.chg) : At(img', e.chg[i].s) = e.chg[i].v

StatOk(want, got) == \A f \in DOMAIN want : want[f] = -1 \/ want[f] = got[f]

Ret(e) ==
    /\ e.op = cl.op
    /\ \E o \in Outcomes(cl) :
        /\ ErrOk(o.err, Set(e.err))
        /\ o.err = "none" /\ "data" \in DOMAIN e => e.data = o.data /\ e.odd = 0
        /\ o.err = "none" /\ "yes" \in DOMAIN e => e.yes = o.yes
        /\ (cl.op = "FSStat" /\ geo # 0) => StatOk(stat, e.stat)
        /\ Apply(o)
    /\ UNCHANGED file
    /\ Observed(e)

GeoOk(e) ==
    IF e.n \in Supported THEN e.err = <<>> /\ e.geo = Geometry(e.n) ELSE e.err # <<>>

Step(e) ==
    CASE e.e = "call"   -> cl.op = "" /\ cl' = e /\ UNCHANGED f8vars
      [] e.e = "ret"    -> cl.op # "" /\ Ret(e) /\ cl' = [op |-> ""]
      [] e.e = "poke"   -> Poke(e.s, e.data) /\ Observed(e) /\ UNCHANGED cl
      [] e.e = "resize" -> Resize(e.bytes) /\ Observed(e) /\ UNCHANGED cl
      [] e.e = "close"  -> Close /\ UNCHANGED cl
      [] e.e = "fresh"  -> Fresh(e.file) /\ UNCHANGED cl
      [] e.e = "geo"    -> GeoOk(e) /\ UNCHANGED <<f8vars, cl>>
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED <<f8vars, tvars>>
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep

TraceSpec == TraceInit /\ [][TraceNext]_<<f8vars, tvars>>

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
