------------------------------- MODULE Trace --------------------------------
(* Checks recorded traces of the real library, event by event, against        *)
(* Session.  TRACE_IN: one trace per line, an array of events.  Every trace   *)
(* is a behaviour of its own, from an initial state on.  Rejected events are  *)
(* printed with what was expected; the trace is then followed further.        *)
EXTENDS Session, Json, IOUtils
VARIABLES trk, pos, ses
vars == <<trk, pos, ses>>

Traces == ndJsonDeserialize(IOEnv.TRACE_IN)

Init == trk \in 1..Len(Traces) /\ pos = 1 /\ ses = Start
Next ==
  /\ pos <= Len(Traces[trk])
  /\ LET e == Traces[trk][pos]
         r == IF Crashed(e) THEN Res(ses, FALSE, "a result") ELSE Do(ses, e)
     IN  /\ pos' = pos + 1
         /\ ses' = r.s
         /\ (IF r.ok THEN TRUE
             ELSE PrintT("REJECTED " \o ToString(trk) \o " " \o ToString(pos) \o " " \o ToJson(r.exp)))
  /\ UNCHANGED trk
Spec == Init /\ [][Next]_vars
View_ == <<trk, pos>>
=============================================================================
