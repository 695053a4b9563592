------------------------------ MODULE C01MCt ------------------------------
EXTENDS VarMC
MCParams == {[omega |-> o, alpha |-> a, gamma |-> "0", beta |-> b] :
              o \in {"0.000001", "0.5"}, a \in {"0", "0.1", "1"}, b \in {"0", "0.85"}}
MCResids == {"0", "-2", "3", "0.5", "1E+200"}
MCBackcasts == {"0", "1.5"}
MCBounds == {<<"0.01", "2">>, <<"1", "100000">>}
=============================================================================
