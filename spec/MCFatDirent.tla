---------------------------- MODULE MCFatDirent -----------------------------
(* A few entries whose times are set in any order.                           *)
EXTENDS FatDirent, Json

CONSTANTS Depth, Emitting

VARIABLES lab, steps

mcvars == <<fvars, ents, lab, steps>>

Raw(c, attr, first) ==
    <<c, 65, 32, 32, 32, 32, 32, 32, 66, 32, 32, attr, 0, 150, 0, 96, 33, 80, 33, 82, 0, 0, 32, 64, 33, 84, first, 0, 10, 0, 0, 0>>
Start0 == <<Raw(65, 32, 3), Raw(229, 32, 3), Raw(65, 17, 4)>>

NoVolume == [spc |-> 1, bpc |-> 32, n |-> 1, eoc |-> 65528, fat |-> << >>, data |-> << >>, root |-> <<>>]

Old == <<1979, 12, 31, 23, 59, 59, 99>>
Epoch == <<1980, 1, 1, 0, 0, 0, 0>>
Late == <<2107, 12, 31, 23, 59, 58, 0>>

MCInit == /\ InitWith(NoVolume) /\ sane = FALSE
          /\ ents = [i \in 1..3 |-> Decode(Start0[i], 512)] /\ lab = [k |-> "start"] /\ steps = 0

MCSet == \E i \in 1..Len(ents), f \in Fields, t \in {Old, Epoch, Late} :
            SetTime(i, f, t) /\ lab' = [k |-> "call", c |-> [op |-> "set", i |-> i, field |-> f, t |-> t]]
MCCopy == Len(ents) < 4 /\ \E i \in 1..Len(ents) : Copy(i) /\ lab' = [k |-> "call", c |-> [op |-> "copy", i |-> i]]

MCNext == steps < Depth /\ (MCSet \/ MCCopy) /\ steps' = steps + 1 /\ UNCHANGED fvars
Spec == MCInit /\ [][MCNext]_mcvars

\* No time before 1980 gets in
NoEarly == \A i \in 1..Len(ents), f \in Fields : ents[i][f] # <<>> => ~Early(ents[i][f])
\* What's deleted stays deleted, and keeps its creation time; nothing but times changes, and of one entry
Once == [][\A i \in 1..Len(ents) :
              /\ ents[i].deleted => ents'[i].deleted /\ ents'[i].created = ents[i].created
              /\ ents'[i].raw = ents[i].raw
              /\ ents'[i] # ents[i] => \A j \in 1..Len(ents) : j # i => ents'[j] = ents[j]]_mcvars

View0 == <<ents, steps>>
State == [e |-> ents, n |-> steps]
Emit == Emitting => PrintT("T" \o ToJson([d |-> TLCGet("level"), s |-> State, t |-> State',
                                          l |-> IF steps = 0 THEN lab' @@ [start |-> Start0] ELSE lab']))
=============================================================================
