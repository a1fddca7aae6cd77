--------------------------- MODULE TraceTelemetry --------------------------
EXTENDS Telemetry, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
         /\ LET c == Traces[tid].cfg IN t = TFresh(c.items, c.sizes, 2)
         /\ obs = TSeen(t)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ TDo(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
