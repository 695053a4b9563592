-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The documented grids of starting values: persistence x alpha (x gamma)  *)
(* with the sample variance as the unconditional one, and a x b.           *)
(***************************************************************************)
EXTENDS Dcc
PersistenceGrid == <<"0.5", "0.7", "0.9", "0.98">>
AlphaGrid == <<"0.01", "0.05", "0.1", "0.2">>
GammaGrid == AlphaGrid
\* candidate j of the univariate grids, for returns of sample variance v
Univariate(model, i, v) ==
    LET k == i - 1
        p == PersistenceGrid[(k % 4) + 1]
        g == IF model = "gjr" THEN GammaGrid[((k \div 4) % 4) + 1] ELSE "0"
        a == AlphaGrid[(IF model = "gjr" THEN k \div 16 ELSE k \div 4) + 1]
    IN  [omega |-> RMul(v, RSub(1, p)), alpha |-> a, gamma |-> g,
         beta |-> RSub(RSub(p, a), RDiv(g, 2))]
\* linspace(0.01, 0.5, 10) x linspace(0.6, 0.95, 10)
DccA(i) == RAdd("0.01", RMul(RDiv("0.49", 9), (i - 1) \div 10))
DccB(i) == RAdd("0.6", RMul(RDiv("0.35", 9), (i - 1) % 10))
GridSize(model) == CASE model = "garch" -> 16 [] model = "gjr" -> 64 [] OTHER -> 100
=============================================================================
