---- MODULE LRUStoreTrace ----
(* Is a trace recorded from the real code a behaviour of LRUStore? *)
EXTENDS LRUStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ store' = Trace[l].obs.store /\ ages' = Trace[l].obs.ages /\ out' = Trace[l].out
         /\ Do(Trace[l].op)
         /\ Obs' = Trace[l].obs
TSpec == TInit /\ [][TNext]_<<vars, l>>
TAccepted == LET d == TLCGet("stats").diameter - 1
             IN  PrintT("REACHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
====
