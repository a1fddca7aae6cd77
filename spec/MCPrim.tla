------------------------------- MODULE MCPrim -------------------------------
(* Exhaustive configuration of Prim with small constants; hist (hidden by *)
(* the view) turns every explored transition into a scenario.              *)
EXTENDS Prim, Json
CONSTANTS Kind, Values, MaxReg, MaxNow
VARIABLE hist

Updates == IF Kind = "bool"
           THEN [k : {"toggle", "setbool", "clear"}, v : {0}, q : {"-"},
                 now : {0}]
           ELSE [k : {"set_value", "update"}, v : Values, q : {"-"}, now : {0}]
                \cup {o \in [k : {"increment"}, v : {1, 255}, q : {"-"}, now : {0}] :
                        Store(Kind, val + o.v, "-") \in {Store(Kind, v, "-") : v \in Values}}
Acts == {<<"none">>, <<"reg", FALSE>>, <<"reg", TRUE>>}
            \cup {<<"rm", i>> : i \in 0..(MaxReg - 1)}
Registers == IF next >= MaxReg THEN {}
             ELSE [k : {"register"}, once : BOOLEAN, act : Acts]
Removes == [k : {"remove"}, id : {cbs[n].id : n \in 1..Len(cbs)}
                                   \cup (IF next = 0 THEN {} ELSE {0})]

MCInit == InitWith(Kind, 0) /\ hist = <<>>
Step(o) == /\ Do(o)
           /\ next' <= MaxReg + 1
           /\ hist' = Append(hist, o)
MCUpdate == \E o \in Updates : Step([o EXCEPT !.now = ts + 1])
MCRegister == \E o \in Registers : Step(o)
MCRemove == \E o \in Removes : Step(o)
MCNext == MCUpdate \/ MCRegister \/ MCRemove
MCView == <<val, cbs, next>>
Emit == PrintT("SCN " \o ToJson(hist'))
Step1 == [][FiredIffChanged /\ OnceConsumed]_<<pvars, obs, hist>>
=============================================================================
