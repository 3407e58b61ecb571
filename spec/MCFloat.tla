------------------------------ MODULE MCFloat ------------------------------
(* a float of the data becomes one of the native ones, and comes back as it was *)
EXTENDS Formats
VARIABLES f, n, g
vars == <<f, n, g>>
Floats == {0, 1} \X {0, 1, 127, 254, 255} \X {0, 1, 4194304, MantMax - 1, MantMax}
Init == f \in Floats /\ n \in Floats /\ g \in Floats /\ ToNative(f, n) /\ FromNative(n, g)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Back == \/ f = g
        \/ IsZeroF(f) /\ IsZeroF(g)
        \/ f[2] = 255 /\ g[2] = 255 /\ (f[3] = MantMax <=> g[3] = MantMax)
Kinds == (IsZeroF(f) <=> IsZeroF(n)) /\ ((f[2] = 255) <=> (n[2] = 255))
=============================================================================
