------------------------------- MODULE DccMCq -------------------------------
EXTENDS DccMC
MCAB == {<<"0", "0">>, <<"0.05", "0.9">>, <<"1", "0">>, <<"0.3", "0.7">>, <<"0", "0.8">>}
=============================================================================
