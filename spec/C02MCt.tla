------------------------------ MODULE C02MCt ------------------------------
EXTENDS VarMC
MCParams == {[omega |-> o, alpha |-> a, gamma |-> g, beta |-> b] :
              o \in {"0.5"}, a \in {"0.05", "0.6"}, g \in {"0", "0.2", "1"}, b \in {"0", "0.7"}}
MCResids == {"0", "-2", "2", "1E+200", "-1E+154"}
MCBackcasts == {"1.5"}
MCBounds == {<<"0.01", "2">>, <<"1", "100000">>}
=============================================================================
