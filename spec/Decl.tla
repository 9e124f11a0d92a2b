--------------------------------- MODULE Decl ---------------------------------
(***************************************************************************)
(* Recursive declarations: handles are declared, cloned, dropped, used in  *)
(* definitions and parsers, and defined, in any order. A handle stands for *)
(* a declaration; a declaration has at most one definition.                *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   h : handle slots; 0 or a declaration                                  *)
(*   q : parser slots; <<>> or the declarations the parser refers to       *)
(*   d : declarations in the order they were made: [k, refs], k is "no",   *)
(*       "yes" or (defined twice, not to be relied on) "bad"               *)
(* An operation is a record                                                *)
(*   o : what is done; h, g : handle slots; q : parser slot;               *)
(*   t : template of the definition or parser; a, b : handles put into it  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

DeclInit(handles, parsers) == [h |-> [s \in 1..handles |-> 0], q |-> [s \in 1..parsers |-> <<>>], d |-> <<>>]

Enabled(st, op) ==
    LET live(s) == st.h[s] # 0
    IN CASE op.o \in {"clone", "drop"} -> live(op.h)
         [] op.o = "define" -> live(op.h) /\ live(op.a) /\ live(op.b)
         [] op.o = "rec" -> op.b = op.h \/ live(op.b)
         [] op.o = "build" -> live(op.a) /\ live(op.b)
         [] op.o = "dropp" -> st.q[op.q] # <<>>
         [] op.o = "parse" -> IF op.q = 0 THEN live(op.h) ELSE st.q[op.q] # <<>>
         [] OTHER -> TRUE

(* The declarations put into the template of an operation. "rec" defines a  *)
(* new declaration, for which its own handle stands; the handle it is given *)
(* while making its definition may be kept in another slot (g).             *)
Args(st, op) ==
    LET new == Len(st.d) + 1
    IN IF op.o = "rec" THEN << new, IF op.b = op.h THEN new ELSE st.h[op.b] >>
       ELSE << st.h[op.a], st.h[op.b] >>

Effect(st, op) ==
    LET new == Len(st.d) + 1
        undef == [k |-> "no", refs |-> <<>>]
    IN CASE op.o = "declare" -> [st EXCEPT !.d = Append(@, undef), !.h[op.h] = new]
         [] op.o = "clone" -> [st EXCEPT !.h[op.g] = st.h[op.h]]
         [] op.o = "drop" -> [st EXCEPT !.h[op.h] = 0]
         [] op.o = "define" ->
              IF st.d[st.h[op.h]].k = "no" THEN [st EXCEPT !.d[st.h[op.h]] = [k |-> "yes", refs |-> Args(st, op)]]
              ELSE [st EXCEPT !.d[st.h[op.h]].k = "bad"]
         [] op.o = "rec" -> [st EXCEPT !.d = Append(@, [k |-> "yes", refs |-> Args(st, op)]), !.h[op.h] = new, !.h[op.g] = new]
         [] op.o = "build" -> [st EXCEPT !.q[op.q] = Args(st, op)]
         [] op.o = "dropp" -> [st EXCEPT !.q[op.q] = <<>>]
         [] OTHER -> st

RECURSIVE Reach(_, _)
(* Everything a set of declarations refers to, however often removed.       *)
Reach(st, ds) ==
    LET more == ds \cup UNION { { st.d[x].refs[j] : j \in 1..Len(st.d[x].refs) } : x \in ds }
    IN IF more = ds THEN ds ELSE Reach(st, more)
Subject(st, op) == IF op.q = 0 THEN { st.h[op.h] } ELSE { st.q[op.q][j] : j \in 1..Len(st.q[op.q]) }
Reliable(st, op) == \A x \in Reach(st, Subject(st, op)) : st.d[x].k # "bad"
===============================================================================
