------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* The context of a run: what the semantics (Sem) need to know about a     *)
(* recorded case, one of its inputs and the kind of tokens and locations.  *)
(***************************************************************************)
EXTENDS Sem

Weight(ch) == CASE ch \in {"c", "]", "u"} -> 1 [] ch \in {"a", "(", "[", "|"} -> 2 [] OTHER -> 3

RECURSIVE AbsOffs(_, _, _)
AbsOffs(t, j, n) ==
    IF j > Len(t) THEN << "A" \o ToString(n) >>
    ELSE << "A" \o ToString(n) >> \o AbsOffs(t, j + 1, n + Weight(t[j]))

RECURSIVE AbsSum(_, _)
AbsSum(t, j) == IF j > Len(t) THEN 0 ELSE Weight(t[j]) + AbsSum(t, j + 1)

Atoms(w, t) == [j \in 1..Len(t) |-> IF w = "C" THEN t[j] ELSE t[j] \o "@" \o ToString(j - 1)]

Ctx(case, t, wr) ==
    LET w == IF wr = "" THEN case.w ELSE wr
        rcb == RichPos(case.pre, 1, << 1, 1, 0 >>)
    IN [nodes |-> case.n, t |-> t, ta |-> Atoms(w, t),
        off |-> CASE w = "R" -> RichOffs(t, 1, rcb[1], rcb[2], rcb[3], 0)
                  [] w = "A" -> AbsOffs(t, 1, AbsSum(case.pre, 1))
                  [] OTHER -> SimpleOffs(Len(t)),
        pfx |-> IF w = "R" THEN "F:" ELSE "",
        v |-> w = "V"]
=============================================================================
