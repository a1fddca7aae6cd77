----------------------------- MODULE TraceTask -----------------------------
EXTENDS Task, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
         /\ w = WFresh(Traces[tid].cfg.tasks)
         /\ obs = WSeen(w)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ WDo(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
