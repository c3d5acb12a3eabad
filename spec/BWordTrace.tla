---- MODULE BWordTrace ----
(* Is a trace recorded from the real code a behaviour of BWord? *)
EXTENDS BWord, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Do(Trace[l].op)
         /\ out' = Trace[l].out
         /\ Obs' = Trace[l].obs
TSpec == TInit /\ [][TNext]_<<vars, l>>
TAccepted == LET d == TLCGet("stats").diameter - 1
             IN  PrintT("REACHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
====
