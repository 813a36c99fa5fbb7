------------------------------- MODULE MCUnixV6 -------------------------------
(* Every mode word; sizes around every boundary.                             *)
EXTENDS UnixV6, TLC

VARIABLES mode, size
vars == <<mode, size>>

Corner == {0, 1, 2, 127, 128, 254, 255}
Init == (mode \in 0..65535 /\ size = <<0, 0, 0>>) \/ (mode = 0 /\ size \in Corner \X Corner \X Corner)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* To portable modes and back
RoundTrip == \A t \in Types(mode) :
    /\ Supported(t)
    /\ \E w \in {32768 + Essence(mode)} : Faithful(w, t, Special(mode), Perm(mode)) /\ Essence(w) = Essence(mode)
    /\ (TypeFor(t) * 8192) + (IF "setuid" \in Special(mode) THEN 2048 ELSE 0) + (IF "setgid" \in Special(mode) THEN 1024 ELSE 0) + Perm(mode) = Essence(mode)
\* Types exclude one another
Distinct == \A k \in 0..3 : k # TypeOf(mode) => Types(k * 8192) \cap Types(mode) = {}
Sizes == LET s == Size(size) IN
    /\ s < 16777216 /\ s % 256 = size[2] /\ s \div 65536 = size[1]
    /\ 512 * Blocks(s) >= s /\ 512 * Blocks(s) < s + 512
=============================================================================
