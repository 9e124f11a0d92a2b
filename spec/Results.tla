------------------------------- MODULE Results -------------------------------
(***************************************************************************)
(* Result values and what the library lets one do with them: views         *)
(* (success flag, output, list of errors), mappings of output and errors,  *)
(* fallible mappings, conversion to the standard result.  C14.             *)
(*                                                                         *)
(* A result is [k: "S" | "R" | "F", o: output, x: failure index, e: errors];*)
(* an operation is a record with field op.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Res(k, o, x, e) == [k |-> k, o |-> o, x |-> x, e |-> e]

MapO(t, o) == << t \o "(" >> \o o \o << ")" >>
(* The j-th error mapped, j counted from 1 in the order of the list.        *)
MapE(t, e) == [j \in 1..Len(e) |-> t \o ToString(j) \o ":" \o e[j]]

Apply(q, u) ==
    CASE u.op = "map" -> IF q.k = "F" THEN q ELSE [q EXCEPT !.o = MapO(u.t, q.o)]
      [] u.op = "maperr" -> [q EXCEPT !.e = MapE(u.t, q.e)]
      [] u.op = "try" ->
           IF q.k = "F" THEN q
           ELSE CASE u.k = "S" -> [q EXCEPT !.o = MapO(u.t, q.o)]
                  [] u.k = "R" -> Res("R", MapO(u.t, q.o), 0, q.e \o u.e)
                  [] OTHER -> Res("F", <<>>, u.x, q.e \o u.e)
      [] OTHER -> q

IsOk(q) == q.k = "S"
Tree(q) == IF q.k = "F" THEN << "none" >> ELSE << "some" >> \o q.o
Errors(q) == q.e
(* The standard result: the output of a success, otherwise the first error. *)
Std(q) == IF q.k = "S" THEN << "ok" >> \o q.o
          ELSE << "err", IF q.e = <<>> THEN "simple:unknown error" ELSE q.e[1] >>
=============================================================================
