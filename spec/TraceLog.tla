------------------------------ MODULE TraceLog ------------------------------
(* Validation of the histories recorded on real footprint logs. *)
EXTENDS FPLog, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, W
vars == <<h, i, W>>
View == <<h, i>>
Init == h \in 1..Len(Histories) /\ i = 1 /\ W = LogInit
Mismatch(e, why) == PrintT("MISMATCH " \o ToJson([h |-> h, ev |-> i, why |-> why, which |-> "", op |-> e.op]))
Next ==
  /\ i > 0 /\ i <= Len(Histories[h].ev)
  /\ h' = h
  /\ LET e == Histories[h].ev[i]
         s == LogStep(W, e)
         o == LogObs(s.w, e.obs)
     IN IF ~s.ok THEN Mismatch(e, s.why) /\ i' = -1 /\ W' = W
        ELSE IF o # "" THEN Mismatch(e, o) /\ i' = -1 /\ W' = W
        ELSE /\ i' = i + 1 /\ W' = s.w
             /\ (IF i = Len(Histories[h].ev) THEN PrintT("DONE " \o ToString(h)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
