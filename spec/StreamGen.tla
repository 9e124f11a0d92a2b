------------------------------ MODULE StreamGen ------------------------------
(***************************************************************************)
(* Behaviours of Stream as operation histories for the harness to replay:  *)
(* breadth first, all histories of Len operations over a short source; or  *)
(* with -simulate, random ones.  Written as JSON lines to the log.         *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, IOUtils

CONSTANTS MaxN, D, MaxAtt, Length, MinN
VARIABLE hist
gvars == << svars, hist >>

Name == ret'[1]
(* The operation just done, with its slot and distance: found by its effect *)
(* being the one of that operation is not unique, so it is recorded.        *)
Rec(o, s, d) == hist' = Append(hist, [o |-> o, s |-> s, d |-> d])
Init == hist = <<>> /\ \E k \in MinN..MaxN : StreamInit(k)
Free(k) == \* leaves room to end the attempts under way
    Len(hist) + Len(att) + k <= Length
Next ==
    /\ Len(hist) < Length
    /\ \/ Free(1) /\ Tok /\ Rec("tok", 0, 0)
       \/ Free(1) /\ Adv /\ Rec("adv", 0, 0)
       \/ Free(1) /\ Eof /\ Rec("eof", 0, 0)
       \/ Free(1) /\ SpanTok /\ Rec("span", 0, 0)
       \/ Free(1) /\ \E d \in 1..D : AdvTo(d) /\ Rec("advto", 0, d)
       \/ Free(1) /\ \E s \in Slots :
            \/ Save(s) /\ Rec("save", s, 0)
            \/ Restore(s) /\ Rec("restore", s, 0)
            \/ Drop(s) /\ Rec("drop", s, 0)
            \/ sl[s] < req /\ TokAt(s) /\ Rec("tokat", s, 0)
            \/ LocAt(s) /\ Rec("locat", s, 0)
            \/ SpanBack(s) /\ Rec("spanback", s, 0)
            \/ \E d \in 0..D : SaveAt(s, d) /\ Rec("saveat", s, d)
       \/ Free(2) /\ Len(att) < MaxAtt /\ Try /\ Rec("try", 0, 0)
       \/ Ok /\ Rec("ok", 0, 0)
       \/ Err /\ Rec("err", 0, 0)
Spec == Init /\ [][Next]_gvars

Letters == << "a", "b", "c" >>
Write ==
    Len(hist) = Length =>
      PrintT("HIST " \o ToJson([id |-> "g", w |-> IF n % 2 = 0 THEN "S" ELSE "R",
               t |-> [j \in 1..n |-> Letters[(j % 3) + 1]], pre |-> <<>>, resume |-> cur % 2 = 0, ops |-> hist]))
=============================================================================
