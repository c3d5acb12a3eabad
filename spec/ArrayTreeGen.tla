---- MODULE ArrayTreeGen ----
(* Behaviours of ArrayTree as scripts for the conformance driver. *)
EXTENDS ArrayTree, TLC, Json
CONSTANT Depth
VARIABLE hist
Ops == UNION {OpsOf(k) : k \in Kinds}

PickKind(zz) == RandomElement(Kinds)
GInit == Init /\ hist = <<>>
GNext == Len(hist) < Depth /\ \E op \in Ops : Do(op) /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
\* one operation at random; every kind of operation is equally likely unless the specification says otherwise
GRandom == /\ Len(hist) < Depth
           /\ \E k \in {PickKind(0)} : \E ops \in {Pick(k)} :
                IF ops = {} THEN UNCHANGED vars /\ hist' = Append(hist, <<"nop">>)
                ELSE \E op \in {RandomElement(ops)} : Do(op) /\ hist' = Append(hist, op)
GSim == GInit /\ [][GRandom]_<<vars, hist>>
\* what the property says of each step, given the operation
GStep == [][StepOK(hist'[Len(hist')])]_<<vars, hist>>
GView == SView
GEmit == PrintT("EDGE " \o ToJson(<<hist', SView, SView'>>))
GEmitFull == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
GEmitEnd == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
====
