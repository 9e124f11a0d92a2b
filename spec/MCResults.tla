------------------------------ MODULE MCResults ------------------------------
(***************************************************************************)
(* Chains of transformations of a result value; nothing is lost on the way.*)
(* seen: every error that ever came in, in order, as often as it came in   *)
(* (error mappings rename both).                                           *)
(***************************************************************************)
EXTENDS Results

CONSTANTS MaxOps
Outs == { << "o" >> }
Errs == { << "e" >>, << "e", "f" >>, << "f", "e", "f" >> }
Values == { Res("S", o, 0, <<>>) : o \in Outs } \cup { Res("R", o, 0, e) : o \in Outs, e \in Errs }
          \cup { Res("F", <<>>, x, e) : x \in {0, 3}, e \in Errs }
Ops == { [op |-> "map", t |-> "m"], [op |-> "maperr", t |-> "n"], [op |-> "try", k |-> "S", t |-> "t", x |-> 0, e |-> <<>>] }
       \cup { [op |-> "try", k |-> "R", t |-> "t", x |-> 0, e |-> e] : e \in Errs }
       \cup { [op |-> "try", k |-> "F", t |-> "t", x |-> x, e |-> e] : x \in {0, 5}, e \in Errs }

VARIABLES q, seen, n, rank, failed
vars == << q, seen, n, rank, failed >>
Rank(k) == CASE k = "S" -> 0 [] k = "R" -> 1 [] OTHER -> 2

Init == q \in Values /\ seen = q.e /\ n = 0 /\ rank = Rank(q.k) /\ failed = IF q.k = "F" THEN q.x ELSE 999
Step(u) ==
    /\ q' = Apply(q, u)
    /\ seen' = IF u.op = "maperr" THEN MapE(u.t, seen)
               ELSE IF u.op = "try" /\ q.k # "F" THEN seen \o u.e ELSE seen
    /\ rank' = Rank(q'.k) /\ n' = n + 1
    /\ failed' = IF failed # 999 THEN failed ELSE IF u.op = "try" /\ u.k = "F" THEN u.x ELSE 999
Next == n < MaxOps /\ \E u \in Ops : Step(u)
Spec == Init /\ [][Next]_vars

NoErrorLost == q.e = seen
KindTellsErrors == (q.k = "S") = (q.e = <<>>)
Worse == [][rank' >= rank]_vars
FailureStays == q.k = "F" => q.x = failed
Views == /\ IsOk(q) = (Head(Std(q)) = "ok")
         /\ (Head(Tree(q)) = "none") = (q.k = "F")
         /\ ~IsOk(q) => Std(q)[2] = Errors(q)[1]
=============================================================================
