----------------------------- MODULE TokenStream -----------------------------
(***************************************************************************)
(* The implementation's design of the token stream: a buffer filled from   *)
(* the source on demand, an index into it, weak markers for saved          *)
(* positions, and a drain step that forgets what no marker can reach.      *)
(* One action per public operation; advance_to and save_at take several    *)
(* steps (pc) because each refill may drain.                               *)
(*                                                                         *)
(* Checked: the invariants below and refinement of Stream.                 *)
(* Drain policy "any": whether the buffer is at capacity is chosen freely  *)
(* at each refill, which covers every growth policy.  Policy "double" is   *)
(* what VecDeque does; it adds the retention bound.                        *)
(* FixSaveAt, FixAdvTo = FALSE give the stream as it was before the fixes  *)
(* (TLC then finds the defects; see MCStreamBug*.cfg).                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, Slots, D, MaxAtt, MaxMarks, Policy, FixSaveAt, FixAdvTo

VARIABLES n,        \* length of the source
          buf,      \* buffered token indices; -1: end of input
          idx, iib, \* next token: absolute, in the buffer
          asked,    \* requests made to the source
          cap,      \* capacity of the buffer (policy "double")
          marks,    \* marker vector: name of the saved position or "dead"
          pos,      \* positions of live markers
          pc,       \* what is under way
          areq, afar, awide, ret  \* history, for the refinement
vars == << n, buf, idx, iib, asked, cap, marks, pos, pc, areq, afar, awide, ret >>

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Start == idx - iib
SourceAtEof == asked > n
AttName(j) == "att" \o ToString(j)
AttNames == { AttName(j) : j \in 1..MaxAtt }
Names == Slots \cup AttNames \cup { "tmp" }
Live == { m \in Names : pos[m] >= 0 }
LivePos == { pos[m] : m \in Live }
Depth == Cardinality({ a \in AttNames : pos[a] >= 0 })

Init ==
    /\ n \in 0..MaxN
    /\ buf = <<>> /\ idx = 0 /\ iib = 0 /\ asked = 0 /\ cap = 0
    /\ marks = <<>>
    /\ pos = [m \in Names |-> -1]
    /\ pc = << "idle" >>
    /\ areq = 0 /\ afar = 0 /\ awide = 0 /\ ret = << "none", 0 >>

(* Names whose marker died: their place in the vector stays.                *)
Bury(ms, m) == [j \in 1..Len(ms) |-> IF ms[j] = m THEN "dead" ELSE ms[j]]
LastDead(ms) == LET S == { j \in 1..Len(ms) : ms[j] = "dead" }
                IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j

(* The vector after saving under name m.                                    *)
Marked(ms, m) ==
    LET b == Bury(ms, m)
        full == Append(b, m)
        reuse == IF LastDead(b) = 0 THEN full ELSE [b EXCEPT ![LastDead(b)] = m]
    IN IF Len(b) >= MaxMarks THEN { reuse } ELSE { full, reuse }

(* make_next_available(): set of possible outcomes                          *)
(*   [buf, iib, asked, cap, marks, ok]                                      *)
AtCapacity == IF Policy = "any" THEN BOOLEAN ELSE { Len(buf) = cap }
Drained(drop) ==
    LET alive == SelectSeq(marks, LAMBDA m : m # "dead")
        back == IF LivePos = {} THEN idx ELSE MinOf(LivePos)
        remove == back - Start
    IN IF ~drop THEN [b |-> buf, i |-> iib, m |-> marks]
       ELSE [b |-> SubSeq(buf, remove + 1, Len(buf)), i |-> iib - remove, m |-> alive]
Available ==
    IF iib < Len(buf)
    THEN { [buf |-> buf, iib |-> iib, asked |-> asked, cap |-> cap, marks |-> marks,
            ok |-> ~(iib = Len(buf) - 1 /\ SourceAtEof)] }
    ELSE IF asked < n
    THEN { LET q == Drained(drop)
               b == Append(q.b, asked)
           IN [buf |-> b, iib |-> q.i, asked |-> asked + 1, marks |-> q.m, ok |-> TRUE,
               cap |-> IF Policy = "any" THEN 0 ELSE IF Len(b) > cap THEN Mx(2, 2 * cap) ELSE cap]
           : drop \in AtCapacity }
    ELSE { [buf |-> Append(buf, -1), iib |-> iib, asked |-> asked + 1, marks |-> marks, ok |-> FALSE,
            cap |-> IF Policy = "any" THEN 0 ELSE IF Len(buf) + 1 > cap THEN Mx(2, 2 * cap) ELSE cap] }

(* Bookkeeping of the abstract history.                                     *)
Kept(c, p) == {c} \cup { p[m] : m \in { x \in Names \ {"tmp"} : p[x] >= 0 } }
Done(name, v, c0, c1, p1, look) ==
    /\ ret' = << name, v >>
    /\ areq' = Mx(areq, look)
    /\ afar' = Mx(afar, Mn(look, n))
    /\ awide' = Mx(awide, Mx(afar' - MinOf(Kept(c0, pos)), afar' - MinOf(Kept(c1, p1))))
    /\ UNCHANGED n
Take(q) == buf' = q.buf /\ iib' = q.iib /\ asked' = q.asked /\ cap' = q.cap /\ marks' = q.marks
SameBuf == UNCHANGED << buf, iib, asked, cap >>
Idle == pc[1] = "idle"
Bool(b) == IF b THEN 1 ELSE 0

Tok ==
    /\ Idle
    /\ \E q \in Available :
         /\ Take(q)
         /\ Done("tok", q.buf[q.iib + 1], idx, idx, pos, idx + 1)
    /\ UNCHANGED << idx, pos, pc >>
Adv ==
    /\ Idle
    /\ \E q \in Available :
         /\ Take([q EXCEPT !.iib = IF q.ok THEN q.iib + 1 ELSE q.iib])
         /\ idx' = IF q.ok THEN idx + 1 ELSE idx
         /\ Done("adv", Bool(q.ok), idx, idx', pos, idx + 1)
    /\ UNCHANGED << pos, pc >>
Save(s) ==
    /\ Idle
    /\ pos' = [pos EXCEPT ![s] = idx]
    /\ marks' \in Marked(marks, s)
    /\ SameBuf /\ UNCHANGED << idx, pc >>
    /\ Done("save", 0, idx, idx, pos', 0)
Drop(s) ==
    /\ Idle /\ pos[s] >= 0
    /\ pos' = [pos EXCEPT ![s] = -1]
    /\ marks' = Bury(marks, s)
    /\ SameBuf /\ UNCHANGED << idx, pc >>
    /\ Done("drop", 0, idx, idx, pos', 0)
Restore(s) ==
    /\ Idle /\ pos[s] >= 0
    /\ idx' = pos[s]
    /\ iib' = iib + (pos[s] - idx)
    /\ UNCHANGED << buf, asked, cap, marks, pos, pc >>
    /\ Done("restore", 0, idx, idx', pos, 0)
TokAt(s) ==
    /\ Idle /\ pos[s] >= 0 /\ pos[s] # idx
    /\ pos[s] - Start < Len(buf)
    /\ UNCHANGED << buf, iib, asked, cap, marks, pos, pc, idx >>
    /\ Done("tokat", buf[pos[s] - Start + 1], idx, idx, pos, 0)
Try ==
    /\ Idle /\ Depth < MaxAtt
    /\ LET a == AttName(Depth + 1)
       IN pos' = [pos EXCEPT ![a] = idx] /\ marks' \in Marked(marks, a)
    /\ SameBuf /\ UNCHANGED << idx, pc >>
    /\ Done("try", 0, idx, idx, pos', 0)
End(ok) ==
    /\ Idle /\ Depth > 0
    /\ LET a == AttName(Depth)
       IN /\ pos' = [pos EXCEPT ![a] = -1]
          /\ marks' = Bury(marks, a)
          /\ idx' = IF ok THEN idx ELSE pos[a]
          /\ iib' = IF ok THEN iib ELSE iib + (pos[a] - idx)
    /\ UNCHANGED << buf, asked, cap, pc >>
    /\ Done(IF ok THEN "ok" ELSE "err", 0, idx, idx', pos', 0)

(* advance_to: first through the buffer, then step by step.                 *)
(* pc = <<"go", amount left, start, distance, what then, slot, iib before>> *)
Begin(d, then, s) ==
    /\ Idle
    /\ LET tokens == IF FixAdvTo THEN Len(buf) - Bool(SourceAtEof) ELSE Len(buf)
           now == Mn(tokens - iib, d)
       IN /\ idx' = idx + now
          /\ iib' = iib + now
          /\ pc' = << "go", d - now, idx, d, then, s, iib >>
    /\ IF then = "saveat" /\ FixSaveAt
       THEN pos' = [pos EXCEPT !["tmp"] = idx] /\ marks' \in Marked(marks, "tmp")
       ELSE UNCHANGED << pos, marks >>
    /\ UNCHANGED << n, buf, asked, cap, areq, afar, awide, ret >>
Look == IF pc[3] + pc[4] <= n THEN pc[3] + pc[4] ELSE n + 1
Finish(ok) ==
    IF pc[5] = "advto"
    THEN /\ Done("advto", Bool(ok), pc[3], idx', pos, Look)
         /\ UNCHANGED pos
    ELSE /\ pos' = [pos EXCEPT ![pc[6]] = idx, !["tmp"] = -1]
         /\ Done("saveat", 0, pc[3], pc[3], pos', Look)
Go ==
    /\ pc[1] = "go" /\ pc[2] > 0
    /\ \E q \in Available :
         IF q.ok
         THEN /\ Take([q EXCEPT !.iib = q.iib + 1])
              /\ idx' = idx + 1
              /\ pc' = [pc EXCEPT ![2] = pc[2] - 1]
              /\ UNCHANGED << n, pos, areq, afar, awide, ret >>
         ELSE /\ Take(q)
              /\ pc' = << "end", FALSE, pc[3], pc[4], pc[5], pc[6], pc[7] >>
              /\ UNCHANGED << n, idx, pos, areq, afar, awide, ret >>
Arrive ==
    /\ pc[1] = "go" /\ pc[2] = 0
    /\ pc' = << "end", TRUE, pc[3], pc[4], pc[5], pc[6], pc[7] >>
    /\ UNCHANGED << n, buf, idx, iib, asked, cap, marks, pos, areq, afar, awide, ret >>
Land ==
    /\ pc[1] = "end"
    /\ pc' = << "idle" >>
    /\ IF pc[5] = "saveat"
       THEN /\ marks' \in { Bury(ms, "tmp") : ms \in Marked(marks, pc[6]) }
            /\ idx' = pc[3]
            /\ iib' = IF FixSaveAt THEN iib + (pc[3] - idx) ELSE pc[7]
       ELSE UNCHANGED << marks, idx, iib >>
    /\ UNCHANGED << buf, asked, cap >>
    /\ Finish(pc[2])

Next ==
    \/ Tok \/ Adv \/ Try \/ End(TRUE) \/ End(FALSE) \/ Go \/ Arrive \/ Land
    \/ \E s \in Slots : Save(s) \/ Drop(s) \/ Restore(s) \/ TokAt(s)
    \/ \E d \in 0..D : Begin(d, "advto", "none") \/ \E s \in Slots : Begin(d, "saveat", s)
Spec == Init /\ [][Next]_vars
(* The last result has no influence on what comes next.                     *)
View == << n, buf, idx, iib, asked, cap, marks, pos, pc, areq, afar, awide >>
Symmetric == Permutations(Slots)

---------------------------------------------------------------------------
(* C01: what is buffered is the source, where the indices say it is.        *)
Fidelity ==
    \A j \in 1..Len(buf) :
      buf[j] = IF Start + j - 1 < n THEN Start + j - 1 ELSE -1
CursorInBuffer == iib \in 0..Len(buf) /\ idx \in 0..n
EofOnlyAtEnd == SourceAtEof => buf # <<>> /\ buf[Len(buf)] = -1
(* The assertions of restore() and of the drain step.                       *)
Reachable == \A m \in Live : pos[m] >= Start /\ pos[m] <= Start + Len(buf)
CursorReachable == idx >= Start
(* C02                                                                      *)
Lazy == Idle => asked <= areq
Once == asked <= n + 1
(* C03, policy "double": capacity at most twice the widest window.          *)
Bounded == Policy = "double" /\ Idle => Len(buf) <= Mx(2, 2 * awide + 2)
MarkersCovered == \A m \in Live : \E j \in 1..Len(marks) : marks[j] = m

(* Refinement of the abstract stream.                                       *)
AbsCur == IF Idle THEN idx ELSE pc[3]
AbsAtt == [j \in 1..Depth |-> pos[AttName(j)]]
Abs == INSTANCE Stream WITH
         cur <- AbsCur, sl <- [s \in Slots |-> pos[s]], att <- AbsAtt,
         req <- areq, far <- afar, wide <- awide
AbsInit == \E len \in 0..MaxN : Abs!StreamInit(len)
Refines == AbsInit /\ [][Abs!StreamNext(D, MaxAtt)]_(Abs!svars)
=============================================================================
