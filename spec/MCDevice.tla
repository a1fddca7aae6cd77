------------------------------ MODULE MCDevice ------------------------------
EXTENDS Device, Json
CONSTANTS MaxOps, Kind
VARIABLE hist
MCInit == XInit([kind |-> Kind]) /\ hist = <<>>
(* Streams, cut in all ways. *)
Streams == {<<65, 255, 241, 66>>, <<255, 253, 1, 255, 255>>, <<195, 169, 255, 246, 226, 130, 172>>,
            <<195, 255, 251, 10, 169, 7>>, <<13, 0, 255, 5, 65>>, <<255, 244, 67>>, <<255, 250, 24, 255, 240>>,
            <<9, 240, 159, 152, 128, 10>>}
(* The stream is chosen by its first piece. *)
Sofar == FoldLeft(LAMBDA a, o : IF o.k = "data" THEN a \o o.bytes ELSE a, <<>>, hist)
Pieces == UNION {{[k |-> "data", bytes |-> SubSeq(s, Len(Sofar) + 1, n)] : n \in Len(Sofar) + 1..Len(s)} :
                 s \in {r \in Streams : Len(r) > Len(Sofar) /\ SubSeq(r, 1, Len(Sofar)) = Sofar}}
Ops == IF Kind = "telnet"
       THEN Pieces \cup {[k |-> "command", code |-> 241], [k |-> "option", code |-> 252, n |-> 3]}
       ELSE {[k |-> "ask", query |-> q, response |-> r, limit |-> d] : q \in {TRUE}, r \in {TRUE}, d \in {13, 25}}
            \cup {[k |-> "ask", query |-> FALSE, response |-> r, limit |-> 13] : r \in BOOLEAN}
            \cup {[k |-> "line", n |-> n, blank |-> n = 0] : n \in 0..2}
            \cup {[k |-> "cancel", id |-> i] : i \in 1..3} \cup {[k |-> "tick", d |-> d] : d \in {9, 14}}
MCNext == /\ Len(hist) < MaxOps
          /\ \E o \in Ops : Allowed(x, o) /\ XDo(o) /\ hist' = Append(hist, o)
MCView == <<x, Len(hist), IF Kind = "telnet" THEN Sofar ELSE <<>>>>
Emit == Len(hist') = MaxOps => PrintT("SCN " \o ToJson(hist'))
=============================================================================
