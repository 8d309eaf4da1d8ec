------------------------------ MODULE PreModel ------------------------------
(* Preprocess with small sets for exhaustive checking, and larger ones for simulation. *)
EXTENDS Preprocess
AllOps == {<<"interpreter">>, <<"permissions">>, <<"interpreter", "permissions">>, <<"permissions", "interpreter">>}
TwoOps == {<<"interpreter">>, <<"permissions", "interpreter">>}
Two == <<"ok", "hang">>
Few == <<"ok", "fail", "hang">>
Many == [i \in 1..20 |-> "ok"] \o [i \in 1..20 |-> "slow"] \o <<"big", "big", "bigerr", "bigerr", "nonutf8err", "odd", "odd",
          "fail", "sig", "err", "errobj", "build", "garbage", "empty", "nonutf8", "nonutf8fail">>
Hanging == <<"ok", "long", "long", "hang">>
OneCfg == {{}}
SomeCfgs == {{}, {"showFlows"}}
AllCfgs == SUBSET {"shouldFail", "showFlows", "stepper"}
=============================================================================
