-------------------------------- MODULE MCReuse --------------------------------
(***************************************************************************)
(* The streams of Reuse over every possible function R of a small size:    *)
(* whatever is done in between, the items a stream has given are those it  *)
(* would have given alone.                                                 *)
(***************************************************************************)
EXTENDS Reuse, Integers, FiniteSets

CONSTANTS NumSlots, NumInputs, Size, Length, Shared

VARIABLES fn, st, items, n, last
vars == << fn, st, items, n, last >>

Slots == 1..NumSlots
Init ==
    /\ fn \in { f \in [1..NumInputs -> [0..(Size - 1) -> 0..Size]] : \A i \in 1..NumInputs : \A p \in 0..(Size - 1) : f[i][p] >= p }
    /\ st = [s \in Slots |-> Closed] /\ items = [s \in Slots |-> <<>>] /\ n = 0 /\ last = 0
(* What the parser answers; with Shared it remembers its last call (wrong). *)
R(i, p) == IF Shared /\ last > p /\ last <= Size THEN last ELSE fn[i][p]
Op(o, s, i) ==
    LET op == [o |-> o, s |-> s, i |-> i]
        me == st[s]
        e == IF o = "next" /\ me.p < Size THEN R(me.i, me.p) ELSE me.p
    IN /\ Enabled(st, op)
       /\ st' = Effect(st, op, e, FALSE)
       /\ items' = IF o = "open" THEN [items EXCEPT ![s] = <<>>]
                   ELSE IF o = "next" /\ me.p < Size THEN [items EXCEPT ![s] = Append(@, e)] ELSE items
       /\ last' = IF o = "next" THEN e ELSE IF o = "parse" THEN fn[i][0] ELSE last
Next ==
    /\ n < Length /\ n' = n + 1 /\ UNCHANGED fn
    /\ \/ \E s \in Slots, i \in 1..NumInputs : Op("open", s, i)
       \/ \E s \in Slots : Op("next", s, 1) \/ Op("close", s, 1)
       \/ \E i \in 1..NumInputs : Op("parse", 1, i)
Spec == Init /\ [][Next]_vars

RECURSIVE Alone(_, _, _)
Alone(i, p, k) == IF k = 0 \/ p >= Size THEN <<>> ELSE << fn[i][p] >> \o Alone(i, fn[i][p], k - 1)
Independent == \A s \in Slots : st[s] # Closed => items[s] = Alone(st[s].i, 0, Len(items[s]))
=============================================================================
