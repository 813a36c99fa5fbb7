----------------------------- MODULE TraceUnixV6 ------------------------------
(* Accepts what the real conversions return if it is what UnixV6 says.       *)
EXTENDS UnixV6, TLC, Json, IOUtils

VARIABLES cl, ep, l
vars == <<cl, ep, l>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[ep].ev[l]
Set(seq) == {seq[i] : i \in 1..Len(seq)}
None == [op |-> ""]

TraceInit == ep \in 1..Len(Traces) /\ l = 2 /\ Traces[ep].ev[1].e = "new" /\ cl = None

Call(e) == cl = None /\ cl' = e

\* A word's portable form, by the words on disk
Portable(m, p) == Set(p.types) \in Types(m) /\ Set(p.special) = Special(m) /\ p.perm = Perm(m) /\ p.other = <<>>

Words(e) == \A i \in 1..Len(e.got) :
    LET m == cl.first + i - 1
        g == e.got[i]
    IN  /\ Portable(m, g)
        \* and back
        /\ g.back >= 0 /\ Bit(g.back, 15) /\ Essence(g.back) = Essence(m) /\ ~Bit(g.back, 12)

Modes(e) == \A i \in 1..Len(e.got) :
    LET c == cl.modes[i]
        w == e.got[i]
    IN  IF w < 0 THEN ~Supported(Set(c.types)) \/ Optional(Set(c.types)) \/ c.other # <<>>
        ELSE Supported(Set(c.types)) /\ Faithful(w, Set(c.types), Set(c.special), c.perm)

Stat(e) ==
    LET s == Size(cl.size)
    IN  /\ e.ok /\ e.size = s /\ e.blocks = Blocks(s) /\ e.blocksize = 512
        /\ e.ino = cl.ino /\ e.links = cl.links /\ e.uid = cl.uid /\ e.gid = cl.gid
        /\ e.atime = cl.atime /\ e.mtime = cl.mtime
        /\ \A i \in 1..8 : e.addr[i] = cl.addr[(2 * i) - 1] + (256 * cl.addr[2 * i])
        /\ Portable(cl.mode, e.mode)
        /\ e.isdir = (Kind(cl.mode) = "dir") /\ e.isfile = (Kind(cl.mode) = "file") /\ ~e.issymlink

\* The kind of any portable mode
Kinds(e) == \A i \in 1..Len(e.got) :
    LET t == Set(cl.modes[i].types)
        g == e.got[i]
    IN  /\ g.isdir = ("dir" \in t) /\ g.isfile = (t = {}) /\ g.issymlink = (t = {"symlink"})

Names(e) == \A n \in DOMAIN NamedBits : BitsOf(e.got[n]) = NamedBits[n]

Ret(e) ==
    /\ e.op = cl.op
    \* "= TRUE" has TLC evaluate them as they are, rather than look for steps in them
    /\ CASE e.op = "words" -> Words(e) = TRUE
         [] e.op = "modes" -> Modes(e) = TRUE
         [] e.op = "kinds" -> Kinds(e) = TRUE
         [] e.op = "names" -> Names(e) = TRUE
         [] e.op = "stat" -> Stat(e) = TRUE
    /\ cl' = None

Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "ret" -> Ret(e)
      [] OTHER -> FALSE

TraceNext ==
    IF l > Len(Traces[ep].ev) THEN UNCHANGED vars
    ELSE Step(Ev) /\ l' = l + 1 /\ ep' = ep
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* What TLC prints of the states of a rejected trace. (Whole states can be huge.)
Where == [ep |-> ep, l |-> l]
=============================================================================
