-------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* One parser value in use: streams opened on several inputs and read in   *)
(* any order, whole parses in between, parses started from user code the   *)
(* parser itself calls, and parses abandoned by a panic of user code.      *)
(* The parser has no state here: a result is a function R of the input, of *)
(* the position the stream got to, and of whether recovery is allowed.     *)
(* The state is that of the streams alone.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Closed == [i |-> 0, p |-> 0]

(* What an operation may be asked in a state st (slots to streams). Opening *)
(* a stream in a slot in use drops the one there.                           *)
Enabled(st, op) ==
    CASE op.o \in {"next", "close"} -> st[op.s] # Closed
      [] OTHER -> TRUE

(* The streams afterwards, given the position the item ended at (next) and  *)
(* whether the operation was abandoned.                                     *)
Effect(st, op, p, abandoned) ==
    CASE op.o = "open" -> [st EXCEPT ![op.s] = [i |-> op.i, p |-> 0]]
      [] op.o = "close" -> [st EXCEPT ![op.s] = Closed]
      [] op.o = "next" -> IF abandoned THEN [st EXCEPT ![op.s] = Closed] ELSE [st EXCEPT ![op.s].p = p]
      [] OTHER -> st
=============================================================================
