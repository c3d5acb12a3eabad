# usage: source tools/mkwrap.sh; mkgen MODULE  -- writes the uniform Gen and Trace modules (run in /verif)
# (the Trace modules of Randoms, CallStack and ArrayVal are edited by hand: restore them afterwards)
# A module provides vars, SView, Init, Do(op), Obs, out, StepOK(op) and either Ops or Kinds and OpsOf(k) (and Pick(k)
# where even one kind is too large to enumerate at each step of a random behaviour).
mkgen () 
{ 
    kinds='Kinds == {o[1] : o \in Ops}
OpsOf(k) == {o \in Ops : o[1] = k}'
    grep -q '^Kinds ==' spec/$1.tla && kinds='Ops == UNION {OpsOf(k) : k \in Kinds}'
    pick='Pick(k) == OpsOf(k)'
    grep -q '^Pick(' spec/$1.tla && pick=''
    pickkind='PickKind(zz) == RandomElement(Kinds)'
    grep -q '^PickKind(' spec/$1.tla && pickkind=''
    cat > spec/$1Gen.tla <<EOF
---- MODULE $1Gen ----
(* Behaviours of $1 as scripts for the conformance driver. *)
EXTENDS $1, TLC, Json
CONSTANT Depth
VARIABLE hist
$kinds
$pick
$pickkind
GInit == Init /\ hist = <<>>
GNext == Len(hist) < Depth /\ \E op \in Ops : Do(op) /\ hist' = Append(hist, op)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
\* one operation at random; every kind of operation is equally likely unless the specification says otherwise
GRandom == /\ Len(hist) < Depth
           /\ \E k \in {PickKind(0)} : \E ops \in {Pick(k)} :
                IF ops = {} THEN UNCHANGED vars /\ hist' = Append(hist, <<"nop">>)
                ELSE \E op \in {RandomElement(ops)} : Do(op) /\ hist' = Append(hist, op)
GSim == GInit /\ [][GRandom]_<<vars, hist>>
\* what the property says of each step, given the operation
GStep == [][StepOK(hist'[Len(hist')])]_<<vars, hist>>
GView == SView
GEmit == PrintT("EDGE " \o ToJson(<<hist', SView, SView'>>))
GEmitFull == Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist'))
GEmitEnd == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
====
EOF

    cat > spec/$1Trace.tla <<EOF
---- MODULE $1Trace ----
(* Is a trace recorded from the real code a behaviour of $1? *)
EXTENDS $1, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Do(Trace[l].op)
         /\ out' = Trace[l].out
         /\ Obs' = Trace[l].obs
TSpec == TInit /\ [][TNext]_<<vars, l>>
TAccepted == LET d == TLCGet("stats").diameter - 1
             IN  PrintT("REACHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
====
EOF

}
