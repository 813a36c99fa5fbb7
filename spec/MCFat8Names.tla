---------------------------- MODULE MCFat8Names ----------------------------
(* The documented conversion is reversible: checked for every name of up to *)
(* MaxLen characters out of Chars. Each one is printed for the real code.   *)
EXTENDS Fat8Names, Json

CONSTANTS Chars, MaxLen, Emitting

VARIABLE name

MCInit == Init /\ name = <<>>
Spec == MCInit /\ [][Len(name) < MaxLen /\ \E c \in Chars : name' = Append(name, c) /\ UNCHANGED taken]_<<name, taken>>

Reversible == Plain(name) => /\ Len(Converted(name)) = 9
                             /\ Back(Converted(name)) = Same(name)
                             /\ Accepted(name) => Same(name) # <<>>
\* Nothing is both required and forbidden
Consistent == ~(Accepted(name) /\ Refused(name))

Emit == Emitting => PrintT("N" \o ToJson(name'))
=============================================================================
