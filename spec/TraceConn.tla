----------------------------- MODULE TraceConn -----------------------------
EXTENDS Conn, TraceBase
VARIABLES tid, l, bad
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
         /\ LET c == Traces[tid].cfg IN s = Fresh(c.flav, c.init, c.plan)
         /\ obs = Seen(s)
TNext == /\ bad = "" /\ l <= Len(Traces[tid].ev)
         /\ Do(Traces[tid].ev[l].op)
         /\ bad' = Clause(obs', Traces[tid].ev[l].obs)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ Report(tid, l, Len(Traces[tid].ev), bad', obs')
=============================================================================
