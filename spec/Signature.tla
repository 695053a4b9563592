------------------------------ MODULE Signature ------------------------------
(***************************************************************************)
(* The documented signatures of frds, and what a form of call means.       *)
(* A callable has required parameters and optional ones with a documented  *)
(* default.  A form of call passes some by position, some by name, and     *)
(* omits optional ones; arrays come in any memory layout.  What a call     *)
(* means is its binding: parameter -> value.                               *)
(*   S(name, required, optional): optional is <<name, default, other>>,    *)
(*   values being written as in the documentation; "@x" is data.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
S(f, req, opt) == [f |-> f, req |-> req, opt |-> opt]
Direction == <<"trade_direction", "None", "@dir">>
Pct == <<"pct_spread", "True", "False">>
Signatures == <<
  S("blsprice", <<"S", "K", "r", "T", "sigma">>, << <<"q", "0.0", "0.03">> >>),
  S("kyle_lambda", <<"returns", "signed_dollar_volume">>, <<>>),
  S("z_score", <<"roa", "capital_ratio", "past_roas">>, <<>>),
  S("quoted_spread", <<"bid", "ask">>, <<Pct>>),
  S("effective_spread", <<"price", "midpoint", "volume">>, <<Direction, Pct>>),
  S("realized_spread", <<"price", "midpoint_later", "midpoint", "volume">>, <<Direction, Pct>>),
  S("simple_price_impact", <<"price", "midpoint_later", "midpoint", "volume">>, <<Direction, Pct>>),
  S("DGGW_ask_slope", <<"ask_size", "ask_price_highest_level", "mid_point">>, <<>>),
  S("DGGW_bid_slope", <<"bid_size", "bid_price_highest_level", "mid_point">>, <<>>),
  S("DGGW_bid_side_slope_difference", <<"bid_size", "bid_price">>, <<>>),
  S("DGGW_ask_side_slope_difference", <<"ask_size", "ask_price">>, <<>>),
  S("DGGW_scaled_depth_difference", <<"bid_size", "ask_size">>, <<>>),
  S("new AbsorptionRatio", <<"asset_returns">>, <<>>),
  S("AbsorptionRatio.estimate", <<>>, << <<"fraction_eigenvectors", "0.2", "0.5">> >>),
  S("new MarginalExpectedShortfall", <<"firm_returns", "market_returns">>, <<>>),
  S("MarginalExpectedShortfall.estimate", <<>>, << <<"q", "0.05", "0.3">> >>),
  S("new SystemicExpectedShortfall", <<"mes_training_sample", "lvg_training_sample", "ses_training_sample", "mes_firm", "lvg_firm">>, <<>>),
  S("SystemicExpectedShortfall.estimate", <<>>, << <<"version", "'BFLV2012'", "'APPR2017'">> >>),
  S("new DistressInsurancePremium", <<"default_prob", "correlations">>, <<>>),
  S("DistressInsurancePremium.estimate", <<>>, << <<"default_threshold", "0.15", "0.3">>, <<"random_seed", "0", "9">>,
                                                  <<"n_simulated_returns", "500_000", "300">>, <<"n_simulations", "1_000", "20">> >>),
  S("ContingentClaimAnalysis.estimate", <<"equity", "volatility", "risk_free_rate", "default_barrier", "time_to_maturity", "cds_spread">>, <<>>),
  S("new LongRunMarginalExpectedShortfall", <<"firm_returns", "market_returns">>, <<>>),
  S("LongRunMarginalExpectedShortfall.estimate", <<>>, << <<"h", "22", "5">>, <<"S", "10_000", "300">>, <<"C", "-0.1", "-0.02">>, <<"random_seed", "42", "3">> >>),
  S("new SRISK", <<"firm_returns", "market_returns", "W", "D">>, <<>>),
  S("SRISK.estimate", <<>>, << <<"k", "0.08", "0.04">>, <<"lrmes_h", "22", "5">>, <<"lrmes_S", "10_000", "300">>, <<"lrmes_C", "-0.1", "-0.02">>,
                               <<"lrmes_random_seed", "42", "3">>, <<"aggregate_srisk", "False", "True">> >>),
  S("new PIN", <<"B", "S">>, <<>>),
  S("PIN.estimate", <<>>, << <<"method", "'EHO2010'", "'LK2011'">> >>),
  S("new GARCHModel", <<"returns">>, << <<"zero_mean", "False", "True">> >>),
  S("new GJRGARCHModel", <<"returns">>, << <<"zero_mean", "False", "True">> >>),
  S("GARCHModel.loglikelihood_model", <<"params", "backcast", "var_bounds">>, << <<"zero_mean", "False", "True">> >>),
  S("GARCHModel.loglikelihood", <<"resids", "sigma2">>, <<>>),
  S("GARCHModel.compute_variance", <<"params", "resids", "backcast", "var_bounds">>, <<>>),
  S("GJRGARCHModel.compute_variance", <<"params", "resids", "backcast", "var_bounds">>, <<>>),
  S("GJRGARCHModel.forecast_variance", <<"params", "resids", "initial_variance">>, <<>>),
  S("GARCHModel.variance_bounds", <<"resids">>, <<>>),
  S("GARCHModel.bounds_check", <<"sigma2", "var_bounds">>, <<>>),
  S("GARCHModel.backcast", <<"resids">>, <<>>),
  S("GARCHModel.ewma", <<"resids", "initial_value">>, << <<"lam", "0.94", "0.8">> >>),
  S("new GARCHModel_CCC", <<"returns1", "returns2">>, <<>>),
  S("new GARCHModel_DCC", <<"returns1", "returns2">>, <<>>),
  S("new GJRGARCHModel_DCC", <<"returns1", "returns2">>, <<>>),
  S("GARCHModel_CCC.loglikelihood", <<"resids1", "sigma2_1", "resids2", "sigma2_2", "rho">>, <<>>),
  S("GARCHModel_DCC.conditional_correlations", <<"a", "b">>, <<>>),
  S("anomaly_scores", <<"data">>, << <<"forest_size", "1000", "20">>, <<"tree_size", "256", "8">>, <<"exclude_cols", "None", "['d']">>,
                                     <<"random_seed", "1021", "7">>, <<"name", "'AnomalyScore'", "'s'">> >>),
  S("mod_merton_computation", <<"fs", "param", "N", "Nsim2">>, << <<"w", "None", "@long">>, <<"random_seed", "1", "7">> >>),
  S("mod_single_cohort_computation", <<"fs", "param", "N", "Nsim2">>, << <<"w", "None", "@shocks">>, <<"random_seed", "1", "7">> >>),
  S("mod_single_cohort_solution", <<"b", "param", "N", "Nsim2", "E", "sigE">>, <<>>),
  S("loan_payoff", <<"F", "f", "ival", "rho", "sig", "T">>, <<>>),
  S("find_face_value_indiv", <<"mu", "F", "ival", "sig", "T", "r", "d">>, <<>>),
  S("merton_solution", <<"x", "E", "D", "r", "d", "T", "sigE">>, <<>>)
>>
Sig(f) == Signatures[CHOOSE i \in DOMAIN Signatures : Signatures[i].f = f]
NReq(s) == Len(s.req)
NPar(s) == Len(s.req) + Len(s.opt)
ParName(s, k) == IF k <= NReq(s) THEN s.req[k] ELSE s.opt[k - NReq(s)][1]
Default(s, k) == s.opt[k - NReq(s)][2]
Other(s, k) == s.opt[k - NReq(s)][3]
\* the one value of a required parameter
Data == "@"
\* a call: pos is the sequence of values passed by position, kw maps names
WellFormed(s, call) ==
    /\ Len(call.pos) <= NPar(s)
    /\ \A k \in 1 .. NPar(s) : (k <= Len(call.pos)) # (ParName(s, k) \in DOMAIN call.kw) \/ (k > Len(call.pos) /\ k > NReq(s) /\ ParName(s, k) \notin DOMAIN call.kw)
    /\ DOMAIN call.kw \subseteq {ParName(s, k) : k \in 1 .. NPar(s)}
Binding(s, call) ==
    [k \in 1 .. NPar(s) |-> IF k <= Len(call.pos) THEN call.pos[k]
                            ELSE IF ParName(s, k) \in DOMAIN call.kw THEN call.kw[ParName(s, k)]
                            ELSE Default(s, k)]
\* how the call that says everything by position looks
Explicit(s, binding) == [pos |-> binding, kw |-> [x \in {} |-> ""]]
Layouts == {"plain", "readonly", "strided", "reversed", "fortran", "int"}
=============================================================================
