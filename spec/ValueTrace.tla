------------------------------ MODULE ValueTrace ------------------------------
(***************************************************************************)
(* Judges what the real library makes of the values of PPC_TRACES.         *)
(***************************************************************************)
EXTENDS Results, FiniteSets, Json, IOUtils

Ren == INSTANCE Render
Prop == IOEnv.PPC_PROP
Data == ndJsonDeserialize(IOEnv.PPC_TRACES)

If(b, s) == IF b THEN {} ELSE {s}

(* obs has one entry for the initial value and one for each operation.      *)
RECURSIVE After(_, _, _)
After(q, us, k) == IF k = 0 THEN q ELSE Apply(After(q, us, k - 1), us[k])
ResBad(c) ==
    UNION { LET q == After(c.q, c.ops, k)
                b == c.obs[k + 1]
                at == " after " \o ToString(k) \o " operations"
            IN If(b.k = q.k, "kind" \o at) \cup If(b.o = q.o, "output" \o at) \cup If(b.x = q.x, "failure index" \o at)
               \cup If(b.e = q.e, "errors" \o at) \cup If(b.ok = IsOk(q), "success flag" \o at)
               \cup If(b.tree = Tree(q), "tree" \o at) \cup If(b.errs = Errors(q), "error iterator" \o at)
               \cup If(b.std = Std(q), "standard result" \o at)
          : k \in 0..Len(c.ops) }

RECURSIVE Merged(_, _, _)
Merged(e, c, k) ==
    IF k = 1 THEN e ELSE Ren!Merge(Merged(e, c, k - 1), Ren!ExpectedFound(c.exps[k], "other", c.places[1]))
Value(c) ==
    CASE c.v = "EF" -> Merged(Ren!ExpectedFound(c.exps[1], c.toks[1], c.places[1]), c, Len(c.exps))
      [] c.v = "UL" -> Ren!UnmatchedLeft(c.toks[1], c.places[1], c.places[2])
      [] c.v = "UR" -> Ren!UnmatchedRight(c.toks[1], c.places[1], c.places[2])
      [] c.v = "UT" -> Ren!UnmatchedType(c.toks[1], c.places[1], c.toks[2], c.places[2])
      [] OTHER -> Ren!Custom(c.msg, c.places[1])
ErrBad(c) ==
    LET e == Value(c)
        p == Ren!PlaceWords(c.w, Ren!At(e))
    IN If(Ren!Says(c.w, e, c.obs.text), "text") \cup If(c.obs.at = p, "place") \cup If(c.obs.alt = p, "place alone")
       \cup If(c.obs.ef = Ren!IsEF(e), "kind of error")

VARIABLE i
Init == i = 0
Next == i = 0 /\ \E j \in 1..Len(Data) :
    /\ i' = j
    /\ LET c == Data[j]
           b == IF "panic" \in DOMAIN c THEN { c.panic } ELSE IF c.kind = "res" THEN ResBad(c) ELSE ErrBad(c)
       IN IF b = {} THEN TRUE ELSE PrintT(<< "REJECT", c.id, ToString(b) >>)
Spec == Init /\ [][Next]_i
=============================================================================
