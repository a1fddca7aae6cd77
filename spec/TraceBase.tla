----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Shared machinery for binding a specification to recorded executions of *)
(* the real code.                                                          *)
(*                                                                         *)
(* The harness writes one JSON object per line: [id, cfg, ev] where ev is  *)
(* a sequence of [op, obs] - the operation performed on the real code and  *)
(* everything observed at its linearization point.  A trace module replays *)
(* op through the *same* action the exhaustive configuration explores and  *)
(* compares the specification's primed observation with the recorded one.  *)
(* Verdicts are total: every trace ends in DONE or in a VERDICT naming the *)
(* observation (clause) the specification does not allow.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

(* Observations are scalars or nested sequences, never records, so their   *)
(* JSON text is canonical; comparing text keeps verdicts total even when   *)
(* the real code produced a value of another type.                         *)
Same(a, b) == ToJson(a) = ToJson(b)

(* Names of the observations on which spec (s) and implementation (i)      *)
(* disagree.                                                               *)
Diff(s, i) == { f \in DOMAIN s : (f \notin DOMAIN i) \/ ~Same(s[f], i[f]) }

Clause(s, i) == LET d == Diff(s, i) IN
    IF d = {} THEN "" ELSE CHOOSE f \in d : TRUE

(* Print the verdict for event number n of trace t. *)
Report(t, n, last, clause, s) ==
    IF clause # ""
    THEN PrintT("VERDICT " \o ToJson(<<t, n, clause, ToJson(s)>>))
    ELSE IF n = last THEN PrintT("DONE " \o ToJson(<<t>>)) ELSE TRUE
=============================================================================
