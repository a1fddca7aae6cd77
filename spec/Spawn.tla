-------------------------------- MODULE Spawn -------------------------------
(***************************************************************************)
(* A started process, as the one that started it sees it: what the process *)
(* writes goes to the queue of its stream, if there is one, from its first *)
(* byte on - also what it wrote before the starter got hold of it.  The    *)
(* end of a stream and of the process leave an empty item.  Leaving tells  *)
(* the process by ending its input, and ends it by force when it stays.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
VARIABLES x, obs
Fresh(cfg) == [want |-> <<cfg.out, cfg.err>>, ps |-> "none", q |-> <<<<>>, <<>>>>, got |-> <<>>,
               sent |-> <<>>, eof |-> 0, killed |-> 0, code |-> 0, left |-> FALSE, rest |-> <<>>, raised |-> FALSE]
Put(y, fd, n) == IF y.want[fd] THEN [y EXCEPT !.q[fd] = Append(@, n)] ELSE y
Happen(y, e) ==
    CASE e[1] = "data" -> Put(y, e[2], e[3])
      [] e[1] = "lost" -> Put(y, e[2], 0)
      [] e[1] = "exit" -> [Put(Put(y, 1, 0), 2, 0) EXCEPT !.ps = "exited", !.code = e[3]]
      [] OTHER -> y
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Leave(y, react) ==
    LET a == IF y.ps = "exited" THEN y
             ELSE IF react = "never" THEN [Happen(y, <<"exit", 0, 99>>) EXCEPT !.eof = 1, !.killed = 1]
             ELSE [Happen(y, <<"exit", 0, 0>>) EXCEPT !.eof = 1]
        rest == SelectSeq(<<<<"stdout", Sum(a.q[1])>>, <<"stderr", Sum(a.q[2])>>>>, LAMBDA r : r[2] > 0)
    IN [a EXCEPT !.left = TRUE, !.q = <<<<>>, <<>>>>, !.rest = rest]
Act(y, op) ==
    CASE op.k = "start" -> FoldLeft(Happen, [y EXCEPT !.ps = "up"], op.early)
      [] op.k \in {"data", "lost", "exit"} -> Happen(y, <<op.k, op.fd, op.n>>)
      [] op.k = "take" -> [y EXCEPT !.got = IF y.q[op.fd] = <<>> THEN <<>> ELSE <<Head(y.q[op.fd])>>,
                                    !.q[op.fd] = IF y.q[op.fd] = <<>> THEN @ ELSE Tail(@)]
      [] op.k = "send" -> [y EXCEPT !.sent = Append(@, op.n)]
      [] op.k = "leave" -> [Leave(y, op.react) EXCEPT !.raised = op.how # "return"]
      [] OTHER -> y
Allowed(y, op) ==
    /\ ~y.left
    /\ CASE op.k = "start" -> y.ps = "none"
         [] op.k = "exit" -> y.ps = "up"
         [] op.k = "send" -> y.ps = "up"
         [] OTHER -> y.ps # "none"
See(y) == [q |-> y.q, got |-> y.got, ps |-> <<y.ps = "exited", y.code>>, sent |-> y.sent,
           stop |-> <<y.eof, y.killed>>, left |-> <<y.left, y.raised>>, rest |-> y.rest]
XInit(cfg) == x = Fresh(cfg) /\ obs = See(Fresh(cfg))
XDo(op) == /\ x' = IF Allowed(x, op) THEN Act([x EXCEPT !.got = <<>>], op) ELSE x
           /\ obs' = See(x')
-----------------------------------------------------------------------------
(* Nothing is left running. *)
NoOrphan == x.left => x.ps = "exited"
(* Force is only used on what doesn't listen. *)
Polite == x.killed <= x.eof
=============================================================================
