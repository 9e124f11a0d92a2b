-------------------------------- MODULE MCDecl --------------------------------
(***************************************************************************)
(* Declarations as counted cells against the abstract ones (Decl). A cell  *)
(* is released when nothing counted refers to it any more, and releasing   *)
(* it drops its definition; cycles stay. Whatever is still held must mean  *)
(* what it means in Decl.                                                  *)
(*   WeakDefs: references inside definitions are not counted (wrong)       *)
(*   Copies: cloning a handle copies its cell (wrong)                      *)
(***************************************************************************)
EXTENDS Decl, Integers, FiniteSets

CONSTANTS NumHandles, NumParsers, Length, MaxDecls, WeakDefs, Copies

VARIABLES abs, h, q, cells, n
vars == << abs, h, q, cells, n >>

Hs == 1..NumHandles
Qs == 1..NumParsers
Ops ==
    { [o |-> o, h |-> s, g |-> g, q |-> 0, t |-> 1, a |-> 1, b |-> 1] : o \in {"declare", "drop", "clone"}, s \in Hs, g \in Hs } \cup
    { [o |-> o, h |-> s, g |-> IF o = "rec" THEN a ELSE 1, q |-> 0, t |-> 1, a |-> IF o = "rec" THEN 1 ELSE a, b |-> b] :
          o \in {"define", "rec"}, s \in Hs, a \in Hs, b \in Hs } \cup
    { [o |-> "build", h |-> 1, g |-> 1, q |-> p, t |-> 1, a |-> a, b |-> b] : p \in Qs, a \in Hs, b \in Hs } \cup
    { [o |-> "dropp", h |-> 1, g |-> 1, q |-> p, t |-> 1, a |-> 1, b |-> 1] : p \in Qs }

Init ==
    /\ abs = DeclInit(NumHandles, NumParsers)
    /\ h = [s \in Hs |-> 0] /\ q = [s \in Qs |-> <<>>] /\ cells = <<>> /\ n = 0

(* cells[x]: [k: "free", "no", "yes", "bad"; refs]                          *)
Times(s, x) == Cardinality({ j \in 1..Len(s) : s[j] = x })
RECURSIVE SumOver(_, _, _)
SumOver(s, x, j) == IF j = 0 THEN 0 ELSE Times(s[j].refs, x) + SumOver(s, x, j - 1)
RECURSIVE SumSlots(_, _, _)
SumSlots(qq, x, j) == IF j = 0 THEN 0 ELSE Times(qq[j], x) + SumSlots(qq, x, j - 1)
Count(hh, qq, cs, x) ==
    Cardinality({ s \in Hs : hh[s] = x }) + SumSlots(qq, x, NumParsers)
    + IF WeakDefs THEN 0 ELSE SumOver(cs, x, Len(cs))
RECURSIVE Release(_, _, _)
Release(hh, qq, cs) ==
    LET dead == { x \in 1..Len(cs) : cs[x].k # "free" /\ Count(hh, qq, cs, x) = 0 }
    IN IF dead = {} THEN cs
       ELSE Release(hh, qq, [x \in 1..Len(cs) |-> IF x \in dead THEN [k |-> "free", refs |-> <<>>] ELSE cs[x]])

Undef == [k |-> "no", refs |-> <<>>]
Do(op) ==
    LET new == Len(cells) + 1
        args == IF op.o = "rec" THEN << new, IF op.b = op.h THEN new ELSE h[op.b] >> ELSE << h[op.a], h[op.b] >>
        x == h[op.h]
        to(hh, qq, cs) == h' = hh /\ q' = qq /\ cells' = Release(hh, qq, cs)
    IN CASE op.o = "declare" -> to([h EXCEPT ![op.h] = new], q, Append(cells, Undef))
         [] op.o = "clone" -> IF Copies THEN to([h EXCEPT ![op.g] = new], q, Append(cells, cells[x])) ELSE to([h EXCEPT ![op.g] = x], q, cells)
         [] op.o = "drop" -> to([h EXCEPT ![op.h] = 0], q, cells)
         [] op.o = "define" -> to(h, q, [cells EXCEPT ![x] = [k |-> IF @.k = "no" THEN "yes" ELSE "bad", refs |-> args]])
         [] op.o = "rec" -> to([h EXCEPT ![op.h] = new, ![op.g] = new], q, Append(cells, [k |-> "yes", refs |-> args]))
         [] op.o = "build" -> to(h, [q EXCEPT ![op.q] = args], cells)
         [] OTHER -> to(h, [q EXCEPT ![op.q] = <<>>], cells)

Next ==
    /\ n < Length
    /\ \E op \in Ops :
         /\ Enabled(abs, op)
         /\ op.o \in {"declare", "rec"} => Len(abs.d) < MaxDecls
         /\ op.o \in {"declare", "drop"} => op.g = 1
         /\ abs' = Effect(abs, op) /\ Do(op) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

(* What a declaration or a cell means, k references deep.                   *)
RECURSIVE Meaning(_, _, _)
Meaning(d, x, k) ==
    IF d[x].k # "yes" \/ k = 0 THEN << d[x].k >>
    ELSE << "yes" >> \o Meaning(d, d[x].refs[1], k - 1) \o Meaning(d, d[x].refs[2], k - 1)
Depth == 3
Kept ==
    /\ \A s \in Hs : abs.h[s] # 0 => Meaning(abs.d, abs.h[s], Depth) = Meaning(cells, h[s], Depth)
    /\ \A s \in Qs : \A j \in 1..Len(abs.q[s]) : Meaning(abs.d, abs.q[s][j], Depth) = Meaning(cells, q[s][j], Depth)
(* Nothing is released while something held can reach it.                   *)
NotFreed == \A s \in Hs : h[s] # 0 => cells[h[s]].k # "free"
(* With no cycles, nothing is left when nothing is held.                    *)
Acyclic == \A x \in 1..Len(abs.d) : abs.d[x].k # "bad" /\ \A j \in 1..Len(abs.d[x].refs) : abs.d[x].refs[j] < x
Released == (Acyclic /\ (\A s \in Hs : h[s] = 0) /\ (\A s \in Qs : q[s] = <<>>)) => \A x \in 1..Len(cells) : cells[x].k = "free"
===============================================================================
