---------------------------- MODULE TraceFraming ----------------------------
EXTENDS Framing, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
         /\ InitWith(Traces[tid].cfg.psize, Traces[tid].cfg.order)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ Do(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
