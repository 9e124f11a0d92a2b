------------------------------ MODULE MCMachine ------------------------------
(* Explores Machine on the cases of a file, every input, with and without   *)
(* recovery.                                                                *)
EXTENDS Machine, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.PPC_CASES)
CONSTANT Streaming
VARIABLE todo
Running == todo[1] = "run"

Context(case, t) ==
    [nodes |-> case.nodes, root |-> case.root, t |-> t,
     ta |-> [j \in 1..Len(t) |-> t[j] \o "@" \o ToString(j - 1)],
     off |-> IF case.w = "R" THEN RichOffs(t, 1, 1, 1, 0, 0) ELSE SimpleOffs(Len(t)),
     pfx |-> IF case.w = "R" THEN "F:" ELSE "", v |-> case.w = "V"]

Init ==
    /\ todo = << "pick", 0 >>
    /\ c = [root |-> 0, t |-> <<>>] /\ r0 = FALSE /\ pos = 0 /\ asked = 0 /\ stk = <<>>
    /\ ret = NoRes /\ last = NoCall /\ steps = 0
Pick ==
    /\ todo[1] = "pick" /\ \E j \in 1..Len(Data) : todo' = << "case", j >>
    /\ UNCHANGED mvars
Begin ==
    /\ todo[1] = "case"
    /\ \E k \in 1..Len(Data[todo[2]].inputs), r \in BOOLEAN :
         LET case == Context(Data[todo[2]], Data[todo[2]].inputs[k])
         IN /\ c' = case /\ r0' = r /\ stk' = << Frame(case.root, 0, r) >>
    /\ pos' = 0 /\ asked' = 0 /\ ret' = NoRes /\ last' = NoCall /\ steps' = 0
    /\ todo' = << "run" >>
Run == todo[1] = "run" /\ MachineStep /\ UNCHANGED todo
(* Streaming (C12): go on where the last result ended.                      *)
Again ==
    /\ Streaming /\ Running /\ Finished /\ ret.k # "F" /\ pos > last.i /\ pos < Size(c)
    /\ stk' = << Frame(c.root, pos, r0) >>
    /\ ret' = NoRes /\ last' = NoCall
    /\ UNCHANGED << c, r0, pos, asked, steps, todo >>
Rest == todo[1] = "run" /\ Finished /\ UNCHANGED << mvars, todo >>
Next == Pick \/ Begin \/ Run \/ Again \/ Rest
Spec == Init /\ [][Next]_<< mvars, todo >>

ITypeOK == Running => TypeOK
IAsSem == Running => AsSem
ILazy == Running => (Streaming \/ Lazy)
IFailConsumesNothing == Running => FailConsumesNothing
INeverBackwards == Running => NeverBackwards
IRecoveredHasErrors == Running => RecoveredHasErrors
ISuccessHasNone == Running => SuccessHasNone
IRecoveryHonest == Running => (Streaming \/ RecoveryHonest)
(* C12: a call at position i gives what the same call on the tokens from i  *)
(* on gives, with indices and locations continuing from there.              *)
Suffix(i) == [c EXCEPT !.t = SubSeq(c.t, i + 1, Len(c.t)), !.ta = SubSeq(c.ta, i + 1, Len(c.ta)),
                       !.off = SubSeq(c.off, i + 1, Len(c.off))]
ISuffix ==
    Running /\ Finished /\ Streaming =>
      LET q == Ev(Suffix(last.i), c.root, 0, r0)
      IN ret.k = q.k /\ ret.o = q.o /\ ret.e = q.e /\ pos = q.p + last.i
(* C14: errors without content change no outcome; other locations change    *)
(* nothing but locations.                                                   *)
IVoid ==
    Running /\ Finished =>
      LET q == Ev([c EXCEPT !.v = TRUE], c.root, last.i, r0)
      IN ret.k = q.k /\ ret.o = q.o /\ pos = q.p /\ (ret.k = "F" => ret.x = q.x) /\ Len(ret.e) = Len(q.e)
Moved == [c EXCEPT !.off = [j \in 1..Len(c.off) |-> "@" \o c.off[j]]]
ILocations ==
    Running /\ Finished =>
      LET q == Ev(Moved, c.root, last.i, r0)
      IN ret.k = q.k /\ pos = q.p /\ (ret.k = "F" => ret.x = q.x) /\ Len(ret.e) = Len(q.e) /\ Len(ret.o) = Len(q.o)
IFailureSane == Running => FailureSane
ITerminates == Running => Terminates
=============================================================================
