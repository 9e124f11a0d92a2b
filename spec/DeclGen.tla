-------------------------------- MODULE DeclGen --------------------------------
(***************************************************************************)
(* Histories of recursive declarations: all of length Length (breadth      *)
(* first) whose last operation parses, or random ones with -simulate.      *)
(* Templates 1..Guarded take a token before anything they refer to and may *)
(* be definitions; those after them, up to Templates, only parsers.        *)
(***************************************************************************)
EXTENDS Decl, Integers, TLC, Json

CONSTANTS NumHandles, NumParsers, NumInputs, Guarded, Templates, MaxDecls, Length, Random

VARIABLES st, hist
vars == << st, hist >>

Hs == 1..NumHandles
Qs == 1..NumParsers
Bare(o) == [o |-> o, h |-> 1, g |-> 1, q |-> 0, t |-> 1, a |-> 1, b |-> 1, i |-> 1, r |-> FALSE, at |-> 0, hd |-> 0]
Manage ==
    { [Bare(o) EXCEPT !.h = s] : o \in {"declare", "drop"}, s \in Hs } \cup
    { [Bare("clone") EXCEPT !.h = s, !.g = g] : s \in Hs, g \in Hs } \cup
    { [Bare("dropp") EXCEPT !.q = p] : p \in Qs }
Defs ==
    { [Bare("define") EXCEPT !.h = s, !.t = t, !.a = a, !.b = b] : s \in Hs, t \in 1..Guarded, a \in Hs, b \in Hs } \cup
    { [Bare("rec") EXCEPT !.h = s, !.t = t, !.g = g, !.b = b] : s \in Hs, t \in 1..Guarded, g \in Hs, b \in Hs }
Builds == { [Bare("build") EXCEPT !.q = p, !.t = t, !.a = a, !.b = b] : p \in Qs, t \in 1..Templates, a \in Hs, b \in Hs }
Parses ==
    { [Bare("parse") EXCEPT !.h = s, !.i = i, !.r = r] : s \in Hs, i \in 1..NumInputs, r \in BOOLEAN } \cup
    { [Bare("parse") EXCEPT !.q = p, !.i = i, !.r = r] : p \in Qs, i \in 1..NumInputs, r \in BOOLEAN }

Sensible(op) ==
    /\ Enabled(st, op)
    /\ op.o = "clone" => op.h # op.g
    /\ op.o \in {"declare", "rec"} => Len(st.d) < MaxDecls
    \* a definition that nothing can be asked of any more is not worth a history
    /\ op.o = "parse" => Reliable(st, op)

(* While a parser is at work, user code may drop a handle.                  *)
Hooked(op) ==
    LET live == { s \in Hs : st.h[s] # 0 }
    IN IF op.o = "parse" /\ op.q # 0 /\ Random /\ live # {} /\ RandomElement(1..4) = 1
       THEN [op EXCEPT !.hd = RandomElement(live), !.at = RandomElement({0, 1, 2, 3, 5, 8, 13})]
       ELSE op
After(s, op) == IF op.hd # 0 THEN [Effect(s, op) EXCEPT !.h[op.hd] = 0] ELSE Effect(s, op)

(* At random: first what kind of operation, then which.                     *)
Choice ==
    LET kind == RandomElement({"manage", "defs", "builds", "parses", "parses", "defs2"})
        set == CASE kind = "manage" -> Manage [] kind \in {"defs", "defs2"} -> Defs [] kind = "builds" -> Builds [] OTHER -> Parses
        twice == RandomElement(1..12) = 1
        ok == { op \in set : Sensible(op) /\ (op.o = "define" /\ ~twice => st.d[st.h[op.h]].k = "no") }
        any == { op \in Manage \cup Parses : Sensible(op) }
    IN IF ok # {} THEN { RandomElement(ok) } ELSE IF any # {} THEN { RandomElement(any) } ELSE { [Bare("declare") EXCEPT !.h = RandomElement(Hs)] }

Init == st = DeclInit(NumHandles, NumParsers) /\ hist = <<>>
\* (Chosen as a member of a set, so that chance is asked once.)
Step(op0) == \E op \in { Hooked(op0) } : hist' = Append(hist, op) /\ st' = After(st, op)
Next ==
    /\ Len(hist) < Length
    /\ IF Random THEN \E op \in Choice : Step(op)
       ELSE IF Len(hist) = Length - 1 THEN \E op \in Parses : Sensible(op) /\ Step(op)
       ELSE \E op \in Manage \cup Defs \cup Builds \cup { p \in Parses : p.i = 1 /\ ~p.r } : Sensible(op) /\ Step(op)
Spec == Init /\ [][Next]_vars

(* Worth running: something defined is parsed.                              *)
Worth == \E k \in 1..Len(hist) : hist[k].o \in {"define", "rec"}
Write == (Len(hist) = Length /\ Worth) => PrintT("HIST " \o ToJson([id |-> "d", ops |-> hist]))
===============================================================================
