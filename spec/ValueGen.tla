------------------------------- MODULE ValueGen -------------------------------
(***************************************************************************)
(* Writes out values for the real library to work on: result values with   *)
(* chains of operations (C14) and error values with merges (C16); a        *)
(* complete family of small ones and random larger ones.                   *)
(***************************************************************************)
EXTENDS Results, FiniteSets, Json, IOUtils, SequencesExt, Integers

Prop == IOEnv.PPC_PROP
Sample == atoi(IOEnv.PPC_SAMPLE)
Long == atoi(IOEnv.PPC_DEPTH)

Pick(S) == RandomElement(S)
Some(s) == s[RandomElement(1..Len(s))]

---------------------------------------------------------------------------
(* Results                                                                 *)
Errs == { << "e" >>, << "e", "f", "g" >> }
Values == { Res("S", o, 0, <<>>) : o \in { << "o" >>, <<>> } } \cup { Res("R", << "o" >>, 0, e) : e \in Errs }
          \cup { Res("F", <<>>, x, e) : x \in {0, 7}, e \in Errs \cup {<<>>} }
Op0(o, t) == [op |-> o, t |-> t, k |-> "", x |-> 0, e |-> <<>>]
Try(k, t, x, e) == [op |-> "try", t |-> t, k |-> k, x |-> x, e |-> e]
Ops == { Op0("map", "m"), Op0("maperr", "n"), Try("S", "t", 0, <<>>) }
       \cup { Try("R", "r", 0, e) : e \in { << "h" >>, << "h", "i" >> } } \cup { Try("F", "x", x, e) : x \in {0, 5}, e \in { << "h" >>, << "h", "i" >> } }
ResCase(q, us) == [kind |-> "res", q |-> q, ops |-> us]
ResFamily == { ResCase(q, <<>>) : q \in Values } \cup { ResCase(q, << u >>) : q \in Values, u \in Ops }
             \cup { ResCase(q, << u, v >>) : q \in Values, u \in Ops, v \in Ops }
RandErrs(n) == [j \in 1..n |-> "e" \o ToString(Pick(0..99))]
RandOp(j) ==
    LET d == Pick(1..10) t == "t" \o ToString(j) IN
    IF d <= 3 THEN Op0("map", t) ELSE IF d <= 6 THEN Op0("maperr", t)
    ELSE IF d <= 8 THEN Try("R", t, 0, RandErrs(Pick(1..4))) ELSE IF d = 9 THEN Try("S", t, 0, <<>>)
    ELSE Try("F", t, Pick(0..50), RandErrs(Pick(1..4)))
Most(j) == Pick({3, 12, 12, 12, 300})
RandRes(j) ==
    LET d == Pick(1..5) IN
    ResCase(IF d <= 2 THEN Res("S", << "o" >>, 0, <<>>) ELSE IF d <= 4 THEN Res("R", << "o", "p" >>, 0, RandErrs(Pick(1..Most(j))))
            ELSE Res("F", <<>>, Pick(0..50), RandErrs(Pick(1..Most(j)))),
            [m \in 1..Pick(2..Long) |-> RandOp(m)])

---------------------------------------------------------------------------
(* Errors: exps is the list of expected tokens of the first error and of   *)
(* every error merged into it.                                             *)
P(k, f, t) == [k |-> k, f |-> f, t |-> t]
Places == { P("N", << 0, 0 >>, << 0, 0 >>), P("L", << 3, 4 >>, << 0, 0 >>), P("S", << 3, 4 >>, << 3, 9 >>) }
Toks == << "t_a", "t_b", "t_c", "EOF" >>
Subsets == { SetToSeq(S) : S \in SUBSET { Toks[j] : j \in 1..4 } }
ErrCase(w, v, exps, toks, places, msg) ==
    [kind |-> "err", w |-> w, v |-> v, exps |-> exps, toks |-> toks, places |-> places, msg |-> msg]
EFCase(w, exps, found, p) == ErrCase(w, "EF", exps, << found >>, << p >>, <<>>)
S1 == P("S", << 1, 2 >>, << 1, 3 >>)
S2 == P("S", << 7, 1 >>, << 8, 5 >>)
ErrFamily ==
    { EFCase(w, << s >>, f, p) : w \in { "R", "U" }, s \in Subsets \cup { << "t_a", "t_a" >>, << "t_b", "EOF", "t_b" >> }, f \in { "t_a", "t_z", "EOF" }, p \in Places }
    \cup { EFCase("U", << s, u >>, f, P("L", << 3, 4 >>, << 0, 0 >>)) : s \in Subsets, u \in Subsets, f \in { "t_z", "EOF" } }
    \cup { ErrCase(w, v, <<>>, << a >>, << S1, p >>, <<>>) : w \in { "R", "U" }, v \in { "UL", "UR" }, a \in { "t_a", "t_z" }, p \in Places }
    \cup { ErrCase(w, "UT", <<>>, << a, b >>, << s, u >>, <<>>) : w \in { "R", "U" }, a \in { "t_a", "t_b" }, b \in { "t_a", "t_b" }, s \in { S1, S2 }, u \in { S1, S2 } }
    \cup { ErrCase(w, "CU", <<>>, <<>>, << p >>, m) : w \in { "R", "U" }, p \in Places, m \in { <<>>, << "w_x" >>, << "w_x", "w_y", "w_x" >> } }
Many == [j \in 1..200 |-> "t_" \o ToString(j)]
RandList(n) == [j \in 1..n |-> IF Pick(1..12) = 1 THEN "EOF" ELSE Some(Many)]
RandPlace == LET k == Some(<< "N", "L", "S" >>) top == Pick({9, 2000, 200000}) r == Pick(1..top) d == Pick(1..3000)
             IN P(k, << r, Pick(1..2000) >>, << d, Pick(1..2000) >>)
RandErr(j) ==
    LET n == Pick(1..4) IN
    EFCase(Some(<< "R", "U" >>), [m \in 1..n |-> RandList(Pick(0..(IF Pick(1..20) = 1 THEN 160 ELSE IF Pick(1..3) = 1 THEN 25 ELSE 4)))],
           IF Pick(1..4) = 1 THEN "EOF" ELSE Some(Many), RandPlace)

---------------------------------------------------------------------------
All == IF Prop = "C14"
       THEN SetToSeq(ResFamily) \o [j \in 1..Sample |-> RandRes(j)]
       ELSE SetToSeq(ErrFamily) \o [j \in 1..Sample |-> RandErr(j)]
VARIABLE x
Init == x = 0 /\ LET cs == All IN
    /\ ndJsonSerialize(IOEnv.PPC_OUT, [j \in 1..Len(cs) |-> [id |-> Prop \o "-v" \o ToString(j)] @@ cs[j]])
    /\ PrintT(<< "CASES", Len(cs), IF Prop = "C14" THEN Cardinality(ResFamily) ELSE Cardinality(ErrFamily) >>)
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
