------------------------------- MODULE SriskMCq -------------------------------
EXTENDS SriskMC
MCFirms == {<<"100", "50", "0.4">>, <<"900", "20", "0.9">>, <<"0", "5", "-0.2">>, <<"12.5", "1", "1.1">>, <<"40", "10", "0">>}
=============================================================================
