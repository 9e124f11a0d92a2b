------------------------------ MODULE ReuseTrace ------------------------------
(***************************************************************************)
(* Checks recorded histories of uses of one parser value against Reuse:    *)
(* every result must be the one R gives, where R is what parsers built     *)
(* anew were seen to return (cases[..].fresh), and every stream must be    *)
(* where its own items left it.                                            *)
(***************************************************************************)
EXTENDS Reuse, Integers, TLC, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.PPC_TRACES)
If(b, s) == IF b THEN {} ELSE {s}

Known(c, i, p, r) == { k \in 1..Len(c.fresh) : c.fresh[k].i = i /\ c.fresh[k].p = p /\ c.fresh[k].r = r }
R(c, i, p, r) == c.fresh[CHOOSE k \in Known(c, i, p, r) : TRUE].res
Size(c, i) == Len(c.inputs[i])

Same(c, q, i, p, r, what) ==
    IF Known(c, i, p, r) = {} THEN { what \o " elsewhere" } ELSE If(q = R(c, i, p, r), what \o " result")

(* The operation and what was observed; yields problems.                    *)
OpBad(c, st, e) ==
    LET nested == IF "nres" \in DOMAIN e THEN Same(c, e.nres, e.ni, 0, e.nr, "inner") ELSE {}
        me == st[e.s]
        \* (Which call the user code interrupts may differ: tokens are compared in hash order.)
        others == UNION { IF e.other[k].k = "A" /\ e.h = "abort" THEN {} ELSE Same(c, e.other[k], e.i, 0, e.r, "one of many")
                          : k \in 1..Len(e.other) }
    IN (IF e.o = "parse" THEN others ELSE {}) \cup
       CASE ~Enabled(st, e) -> {}
         [] e.o = "open" -> {}
         [] e.o = "close" -> If(e.tail = IF me.p >= Size(c, me.i) THEN <<>> ELSE SubSeq(c.shown[me.i], me.p + 1, Size(c, me.i)), "tail")
         [] e.h = "abort" /\ e.fired -> If(e.res.k = "A", "abandoned operation returned")
         [] e.o = "next" ->
              IF me.p >= Size(c, me.i) THEN If(e.res.k = "N", "item although nothing is left") \cup nested
              ELSE If(e.start = me.p, "item starts elsewhere") \cup Same(c, e.res, me.i, me.p, TRUE, "item") \cup nested
         [] OTHER -> Same(c, e.res, e.i, 0, e.r, "parse") \cup nested

EffectOf(st, e) ==
    IF ~Enabled(st, e) THEN st
    ELSE Effect(st, e, IF e.o = "next" /\ e.res.k = "N" THEN st[e.s].p ELSE e.res.p, e.res.k \in {"A", "P"})

RECURSIVE Walk(_, _, _)
Walk(c, st, k) ==
    IF k > Len(c.obs) THEN TRUE
    ELSE LET e == c.obs[k]
             b == OpBad(c, st, e)
         IN /\ IF b = {} THEN TRUE ELSE PrintT(<< "REJECT", c.id, k, ToString(b) >>)
            /\ Walk(c, EffectOf(st, e), k + 1)

VARIABLE i
Init == i = 0
Next == i = 0 /\ \E j \in 1..Len(Data) : i' = j /\ (Walk(Data[j], [s \in 1..3 |-> Closed], 1) = TRUE)
Spec == Init /\ [][Next]_i
=============================================================================
