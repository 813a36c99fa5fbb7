------------------------------- MODULE MCFlags --------------------------------
(* Every combination of flags.                                               *)
EXTENDS Flags, TLC, Json

CONSTANTS Emitting

VARIABLES kind, mode, bits, lab
vars == <<kind, mode, bits, lab>>

Legal(k) == IF k = "os" THEN OSBits \cup Alien ELSE IF k = "io" THEN Bits ELSE MountBits
Init == kind \in {"os", "io", "mount"} /\ mode \in (IF kind = "mount" THEN {""} ELSE Modes) /\ bits = {} /\ lab = [k |-> "start"]

Set(b) == /\ b \in Legal(kind) /\ b \notin bits
          /\ bits' = bits \cup {b} /\ UNCHANGED <<kind, mode>>
          /\ lab' = [k |-> "set"]
Next == \E b \in OSBits \cup Alien \cup Bits \cup MountBits : Set(b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Each query depends upon its own flag only
Independent ==
    \A b \in Legal(kind) :
        CASE kind = "io" -> \A q \in IOQueries(mode, bits \ {b}) \ {"RequiresWritePerm"} : q \in IOQueries(mode, bits)
          [] kind = "mount" -> Cardinality(MountQueries(bits)) = Cardinality(bits \cap Permissions)
          [] OTHER -> TRUE
\* What's translated answers like the original, and nothing more is asked of it
Faithful == kind = "os" =>
    LET t == Translate(mode, bits)
    IN  /\ t.bits \subseteq bits /\ t.mode = mode
        /\ IOQueries(t.mode, t.bits) = IOQueries(mode, bits \cap Bits)
\* One can always read or write; writing always takes permission
Sensible == kind = "io" =>
    LET q == IOQueries(mode, bits)
    IN  q \cap {"Read", "Write"} # {} /\ ("Write" \in q => "RequiresWritePerm" \in q)

View0 == <<kind, mode, bits>>
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> <<>>, t |-> <<kind, mode, bits'>>,
                                          l |-> [k |-> "call", c |-> [kind |-> kind, mode |-> mode, bits |-> bits']]]))
=============================================================================
