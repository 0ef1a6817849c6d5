------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded history has to be a behaviour of the specification.
   One initial state per history; the verdict is total: DONE, or MISMATCH with the broken clause.  *)
EXTENDS FPSession, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, W
vars == <<h, i, W>>
View == <<h, i>>

Init == h \in 1..Len(Histories) /\ i = 1 /\ W = InitWorld

Mismatch(e, why, which) == PrintT("MISMATCH " \o ToJson([h |-> h, ev |-> i, why |-> why, which |-> ToString(which), op |-> e.op]))

Next ==
  /\ i > 0 /\ i <= Len(Histories[h].ev)
  /\ h' = h
  /\ LET e == Histories[h].ev[i]
         s == Dispatch(W, e)
         o == Obs(W, s.w, e.obs)
     IN IF ~s.ok THEN Mismatch(e, s.why, "") /\ i' = -1 /\ W' = W
        ELSE IF o.why # "" THEN Mismatch(e, o.why, o.which) /\ i' = -1 /\ W' = W
        ELSE /\ i' = i + 1 /\ W' = o.w
             /\ (IF i = Len(Histories[h].ev) THEN PrintT("DONE " \o ToString(h)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
