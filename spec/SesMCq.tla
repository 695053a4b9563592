------------------------------- MODULE SesMCq -------------------------------
EXTENDS SesMC
MCFirms == {"0.1", "-0.2", "0.5"} \X {"1", "3"} \X {"-1", "0.5"}
=============================================================================
