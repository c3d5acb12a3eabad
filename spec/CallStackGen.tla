---- MODULE CallStackGen ----
(* Behaviours of CallStack as scripts for the conformance driver. *)
EXTENDS CallStack, TLC, Json
CONSTANT Depth
VARIABLE hist
Ops == UNION {OpsOf(k) : k \in Kinds}
Pick(k) == OpsOf(k)
GInit == Init /\ hist = <<>>
GNext == Len(hist) < Depth /\ \E op \in Ops : Do(op) /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
\* one operation at random, every kind of operation equally likely
GRandom == /\ Len(hist) < Depth
           /\ \E k \in {RandomElement(Kinds)} : \E ops \in {Pick(k)} :
                IF ops = {} THEN UNCHANGED vars /\ hist' = Append(hist, <<"nop">>)
                ELSE \E op \in {RandomElement(ops)} : Do(op) /\ hist' = Append(hist, op)
GSim == GInit /\ [][GRandom]_<<vars, hist>>
\* what the property says of each step, given the operation
GStep == [][StepOK(hist'[Len(hist')])]_<<vars, hist>>
GView == SView
GEmit == PrintT("EDGE " \o ToJson(<<hist', SView, SView'>>))
GEmitFull == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
GEmitEnd == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
====
