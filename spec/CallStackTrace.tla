---- MODULE CallStackTrace ----
(* Is a trace recorded from the real code a behaviour of CallStack? *)
EXTENDS CallStack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Legal(Trace[l].op, Trace[l].out.v)
         /\ Result(Trace[l].op, Trace[l].out.v)
         /\ out' = Trace[l].out
         /\ Obs' = Trace[l].obs
TSpec == TInit /\ [][TNext]_<<vars, l>>
TAccepted == LET d == TLCGet("stats").diameter - 1
             IN  PrintT("REACHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
====
