---- MODULE ArrayValTrace ----
(* Is a trace recorded from the real code a behaviour of ArrayVal? *)
EXTENDS ArrayVal, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* stands for Mixes: of all interrupted overwrites, those that were observed
TMixes(e, c) == {x \in {Trace[l].obs.a[i].e : i \in DOMAIN Trace[l].obs.a} : Mixed(x, e, c)}
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Do(Trace[l].op)
         /\ out' = Trace[l].out
         /\ Obs' = Trace[l].obs
TSpec == TInit /\ [][TNext]_<<vars, l>>
TAccepted == LET d == TLCGet("stats").diameter - 1
             IN  PrintT("REACHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
====
