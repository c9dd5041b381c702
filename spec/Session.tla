------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session of API calls: the state a user can rely on is the settings and *)
(* the values obtained so far (which never change).  One action per call;   *)
(* resp is what the call answers.                                           *)
(***************************************************************************)
EXTENDS Api
VARIABLES st, store, resp
svars == <<st, store, resp>>
SInit == st = Default /\ store = <<>> /\ resp = None

DoEval(e) == LET r == Eval(e, TopEnv(store), st)
             IN resp' = r /\ store' = Append(store, r) /\ st' = st
DoSet(name, vt, v) ==
  IF ValidSet(name, vt, v) THEN st' = Apply(st, name, vt, v) /\ resp' = None /\ store' = store
  ELSE resp' = Err /\ UNCHANGED <<st, store>>
DoReset == st' = Default /\ resp' = None /\ store' = store
DoLook(i) == resp' = store[i] /\ UNCHANGED <<st, store>>
=============================================================================
