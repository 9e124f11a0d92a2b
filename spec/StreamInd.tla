------------------------------ MODULE StreamInd ------------------------------
(***************************************************************************)
(* The arithmetic of TokenStream for sources, distances and buffers of any *)
(* size: Inductive holds initially and is kept by every step, and implies  *)
(* what TLC checks on TokenStream up to a bound. Checked with Apalache     *)
(* (positions are unbounded integers; at most four saved positions).       *)
(*   idx, iib: next token, absolute and in the buffer                      *)
(*   len, cap: buffer length and capacity; asked: requests to the source   *)
(*   live: positions saved; tmp: the one save_at saves on its way, or -1   *)
(*   left: how far advance_to has yet to go, or -1; saving: for save_at    *)
(*   wide: widest stretch that was reachable and read (ghost)              *)
(***************************************************************************)
EXTENDS Integers, Apalache

CONSTANTS
    \* @type: Int;
    N,
    \* @type: Bool;
    FixAdvTo,
    \* @type: Bool;
    FixSaveAt

VARIABLES
    \* @type: Int;
    idx,
    \* @type: Int;
    iib,
    \* @type: Int;
    len,
    \* @type: Int;
    cap,
    \* @type: Int;
    asked,
    \* @type: Set(Int);
    live,
    \* @type: Int;
    tmp,
    \* @type: Int;
    left,
    \* @type: Bool;
    saving,
    \* @type: Int;
    wide

ConstFixed == N \in Nat /\ FixAdvTo = TRUE /\ FixSaveAt = TRUE
ConstBugAdvTo == N \in Nat /\ FixAdvTo = FALSE /\ FixSaveAt = TRUE
ConstBugSaveAt == N \in Nat /\ FixAdvTo = TRUE /\ FixSaveAt = FALSE

Eof == asked > N
Pulled == IF Eof THEN N ELSE asked
(* The absolute index of the token at the front of the buffer, and what the *)
(* code takes it for.                                                       *)
Base == asked - len
Start == idx - iib

\* @type: (Int, Int) => Int;
Larger(a, b) == IF a > b THEN a ELSE b
\* @type: (Int, Int) => Int;
Smaller(a, b) == IF a < b THEN a ELSE b
(* Markers the buffer must honour, and everything that can be reached.      *)
Marks == IF tmp >= 0 /\ FixSaveAt THEN live \union {tmp} ELSE live

Init ==
    /\ idx = 0 /\ iib = 0 /\ len = 0 /\ cap = 0 /\ asked = 0
    /\ live = {} /\ tmp = -1 /\ left = -1 /\ saving = FALSE /\ wide = 0

(* make_next_available() followed by a step of `by` if a token is there.    *)
\* @type: (Int) => Bool;
Available(by) ==
    \/ /\ iib < len
       /\ LET ok == ~(iib = len - 1 /\ Eof)
              d == IF ok THEN by ELSE 0
          IN /\ idx' = idx + d /\ iib' = iib + d
             /\ left' = IF left > 0 THEN (IF ok THEN left - 1 ELSE 0) ELSE left
       /\ UNCHANGED << len, cap, asked, wide >>
    \/ /\ iib >= len /\ asked < N
       /\ \E back \in Marks \union {idx} :
            /\ IF Marks = {} THEN back = idx ELSE back \in Marks /\ (\A m \in Marks : back <= m)
            /\ LET remove == IF len = cap THEN back - Start ELSE 0
                   l == len - remove + 1
               IN /\ len' = l
                  /\ iib' = iib - remove + by
                  /\ cap' = IF l > cap THEN Larger(4, 2 * cap) ELSE cap
            /\ wide' = Larger(wide, asked + 1 - back)
       /\ asked' = asked + 1
       /\ idx' = idx + by
       /\ left' = IF left > 0 THEN left - 1 ELSE left
    \/ /\ iib >= len /\ asked >= N
       /\ len' = len + 1 /\ asked' = asked + 1
       /\ cap' = IF len + 1 > cap THEN Larger(4, 2 * cap) ELSE cap
       /\ left' = IF left > 0 THEN 0 ELSE left
       /\ UNCHANGED << idx, iib, wide >>

Token == left = -1 /\ Available(0) /\ UNCHANGED << live, tmp, saving >>
Advance == left = -1 /\ Available(1) /\ UNCHANGED << live, tmp, saving >>
Save ==
    /\ left = -1 /\ live' = live \union {idx}
    /\ UNCHANGED << idx, iib, len, cap, asked, tmp, left, saving, wide >>
(* A position may be saved more than once.                                  *)
Drop ==
    /\ left = -1 /\ \E m \in live : live' \in { live, live \ {m} }
    /\ UNCHANGED << idx, iib, len, cap, asked, tmp, left, saving, wide >>
Restore ==
    /\ left = -1 /\ \E m \in live : idx' = m /\ iib' = iib + (m - idx)
    /\ wide' = wide
    /\ UNCHANGED << len, cap, asked, live, tmp, left, saving >>
Begin ==
    /\ left = -1
    /\ \E d \in Nat, s \in BOOLEAN :
         LET tokens == IF FixAdvTo /\ Eof THEN len - 1 ELSE len
             now == Smaller(tokens - iib, d)
         IN /\ idx' = idx + now /\ iib' = iib + now /\ left' = d - now
            /\ saving' = s
            /\ tmp' = IF s THEN idx ELSE -1
    /\ UNCHANGED << len, cap, asked, live, wide >>
Go ==
    /\ left > 0
    /\ Available(1)
    /\ UNCHANGED << live, tmp, saving >>
Land ==
    /\ left = 0
    /\ IF saving THEN live' = live \union {idx} /\ idx' = tmp /\ iib' = iib + (tmp - idx)
       ELSE UNCHANGED << live, idx, iib >>
    /\ left' = -1 /\ tmp' = -1 /\ saving' = FALSE
    /\ UNCHANGED << len, cap, asked, wide >>
Next == Token \/ Advance \/ Save \/ Drop \/ Restore \/ Begin \/ Go \/ Land

---------------------------------------------------------------------------
(* Read right: the buffer has at each place the token it is taken for, and  *)
(* the cursor and every reachable position lie within what was read and     *)
(* kept.                                                                    *)
Faithful ==
    /\ Start = Base
    /\ 0 <= iib /\ iib <= len /\ idx <= Pulled
    /\ \A m \in Marks : Base <= m /\ m <= Pulled
Once == asked <= N + 1
(* Memory: twice what could be reached and was read, or a few tokens; once  *)
(* more when the end is met, as nothing is forgotten then.                  *)
Bounded == len <= cap /\ cap <= (IF Eof THEN 2 ELSE 1) * Larger(4, 2 * wide)

Inductive ==
    /\ N >= 0 /\ idx >= 0 /\ 0 <= len /\ 0 <= asked /\ Base >= 0
    /\ Faithful /\ Once /\ Bounded /\ wide >= 0
    /\ left >= -1 /\ (saving => left >= 0) /\ (tmp >= 0 <=> saving) /\ tmp >= -1
    /\ (Eof => len >= 1)
    /\ (tmp >= 0 => Base <= tmp /\ tmp <= idx)
IndInit ==
    /\ idx \in Int /\ iib \in Int /\ len \in Int /\ cap \in Int /\ asked \in Int
    /\ live = Gen(4) /\ tmp \in Int /\ left \in Int /\ saving \in BOOLEAN /\ wide \in Int
    /\ Inductive
===============================================================================
