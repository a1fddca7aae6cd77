---------------------------- MODULE TraceDevice ----------------------------
EXTENDS Device, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
         /\ XInit(Traces[tid].cfg)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ XDo(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
