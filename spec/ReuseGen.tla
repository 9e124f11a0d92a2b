------------------------------- MODULE ReuseGen -------------------------------
(***************************************************************************)
(* Histories of uses of one parser value: all of length Length (breadth    *)
(* first), or random ones with -simulate.                                  *)
(***************************************************************************)
EXTENDS Reuse, Integers, TLC, Json

CONSTANTS NumSlots, NumInputs, Length, Hooks

VARIABLES st, hist
vars == << st, hist >>

Bare(o, s, i, r) == [o |-> o, s |-> s, i |-> i, r |-> r, h |-> "none", at |-> 0, ni |-> 1, nr |-> FALSE, n |-> 1]
Plain ==
    { Bare("open", s, i, FALSE) : s \in 1..NumSlots, i \in 1..NumInputs } \cup
    { Bare(o, s, 1, FALSE) : o \in {"next", "close"}, s \in 1..NumSlots } \cup
    { Bare("parse", 1, i, r) : i \in 1..NumInputs, r \in BOOLEAN }
(* With user code at a random moment of the operation; parses may be made   *)
(* very often.                                                              *)
Often(op) == IF op.o = "parse" /\ Hooks /\ RandomElement(1..8) = 1 THEN [op EXCEPT !.n = RandomElement({260, 1200})] ELSE op
Hooked(op) ==
    IF op.o \in {"next", "parse"} /\ Hooks /\ RandomElement(1..2) = 1
    THEN [op EXCEPT !.h = RandomElement({"nest", "nest", "abort"}), !.at = RandomElement({0, 1, 2, 3, 4, 5, 7, 9, 12, 16, 22, 30}),
                    !.ni = RandomElement(1..NumInputs), !.nr = RandomElement(BOOLEAN)]
    ELSE op

Init == st = [s \in 1..NumSlots |-> Closed] /\ hist = <<>>
(* What a stream reads is up to the grammar: its position stays open here.  *)
Next ==
    /\ Len(hist) < Length
    /\ \E op \in Plain :
         /\ Enabled(st, op)
         \* (Chosen as a member of a set, so that chance is asked once.)
         /\ \E h \in { Often(Hooked(op)) } : hist' = Append(hist, h) /\ st' = Effect(st, op, 0, h.h = "abort")
Spec == Init /\ [][Next]_vars

Write == Len(hist) = Length => PrintT("HIST " \o ToJson([id |-> "u", ops |-> hist]))
=============================================================================
