---------------------------- MODULE TraceManager ---------------------------
EXTENDS Manager, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ s = 0
         /\ m = MFresh(Traces[tid].cfg.conns)
         /\ obs = MSeen(m)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ MDo(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
