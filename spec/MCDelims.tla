------------------------------- MODULE MCDelims -------------------------------
(***************************************************************************)
(* C10: the scanner for nested delimiters as a machine (one token per      *)
(* step, rules as in Sem), checked on every text of a bounded length       *)
(* against statements that do not mention its stack.                       *)
(***************************************************************************)
EXTENDS Sem

CONSTANTS MaxLen, Chars, TypeSets

VARIABLES t, ty, st, p, errs, over, opened
vars == << t, ty, st, p, errs, over, opened >>

c == [t |-> t, ta |-> [j \in 1..Len(t) |-> t[j] \o "@" \o ToString(j - 1)], off |-> SimpleOffs(Len(t)),
      pfx |-> "", v |-> FALSE, nodes |-> <<>>]

Init == t = <<>> /\ ty = <<>> /\ st = <<>> /\ p = 0 /\ errs = <<>> /\ over = "grow" /\ opened = {}
Grow == over = "grow" /\ Len(t) < MaxLen /\ \E ch \in Chars : t' = Append(t, ch) /\ UNCHANGED << ty, st, p, errs, over, opened >>
Start == over = "grow" /\ over' = "scan" /\ ty' \in TypeSets /\ UNCHANGED << t, st, p, errs, opened >>
ReadOne ==
    /\ over = "scan"
    /\ UNCHANGED << t, ty >>
    /\ IF AtEof(c, p)
       THEN /\ over' = "eof" /\ UNCHANGED << st, p, opened >>
            /\ errs' = ScanDelims(c, ty, st, p, errs).e
       ELSE LET q == DelimTok(c, ty, st, p)
            IN /\ st' = q.st /\ errs' = errs \o q.e
               /\ opened' = opened \cup { q.st[j].tok : j \in 1..Len(q.st) }
               /\ IF q.st = <<>> THEN over' = "stop" /\ UNCHANGED p ELSE p' = p + 1 /\ UNCHANGED over
Next == Grow \/ Start \/ ReadOne
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Types == { << << "(", ")" >> >>, << << "(", ")" >>, << "[", "]" >> >>, << << "|", "|" >> >>,
           << << "(", ")" >>, << "|", "|" >>, << "[", "]" >> >>, << << "(", ")" >>, << "[", ")" >> >>,
           << << "(", "|" >>, << "|", ")" >> >> }
(* A word is balanced if deleting other tokens and then adjacent matching   *)
(* pairs leaves nothing.                                                    *)
Delims == { ty[j][1] : j \in 1..Len(ty) } \cup { ty[j][2] : j \in 1..Len(ty) }
Matching(a, b) == \E j \in 1..Len(ty) : ty[j] = << a, b >>
RECURSIVE Reduce(_)
Reduce(w) ==
    LET S == { j \in 1..(Len(w) - 1) : Matching(w[j], w[j + 1]) }
    IN IF S = {} THEN w
       ELSE LET j == CHOOSE m \in S : \A h \in S : m <= h
            IN Reduce(SubSeq(w, 1, j - 1) \o SubSeq(w, j + 2, Len(w)))
Word(i, j) == SelectSeq(SubSeq(t, i + 1, j + 1), LAMBDA ch : ch \in Delims)
BalancedTo(j) == Word(0, j) # <<>> /\ Reduce(Word(0, j)) = <<>>

(* Types are unambiguous: no delimiter occurs twice except as both sides of *)
(* one type.                                                                *)
Clear == \A j, m \in 1..Len(ty) : j # m => {ty[j][1], ty[j][2]} \cap {ty[m][1], ty[m][2]} = {}
StartsOpen == t # <<>> /\ \E j \in 1..Len(ty) : ty[j][1] = t[1]

InBounds == p <= Len(t) /\ Len(st) <= p
(* Without reports it stopped at the delimiter that balances the text, the  *)
(* first such place.                                                        *)
SilentIsBalanced ==
    over = "stop" /\ errs = <<>> /\ Clear /\ StartsOpen =>
      BalancedTo(p) /\ \A j \in 0..(p - 1) : ~BalancedTo(j)
(* A text that is balanced up to j, with no wrong closing before, is left   *)
(* there without a report.                                                  *)
PrefixOk(j) == \* what remains open up to j consists of opening delimiters only
    LET w == Reduce(Word(0, j)) IN \A m \in 1..Len(w) : \E k \in 1..Len(ty) : ty[k][1] = w[m]
BalancedIsSilent ==
    over = "stop" /\ Clear /\ StartsOpen /\ p > 0 /\ BalancedTo(p) /\ (\A j \in 0..p : PrefixOk(j)) => errs = <<>>
(* At the end of input, without wrong closings: one report per delimiter    *)
(* left open, innermost first.                                              *)
EofReports ==
    over = "eof" /\ Clear /\ StartsOpen /\ (\A j \in 0..(Len(t) - 1) : PrefixOk(j)) =>
      Len(errs) = Len(Reduce(Word(0, Len(t) - 1))) /\ \A j \in 1..Len(errs) : errs[j].s[1] = "ULD"
(* Reports name delimiters that were really opened, each at most once.      *)
ReportedOpen == { j \in 1..Len(errs) : errs[j].s[1] \in {"ULD", "UDT"} }
ReportsNameOpened ==
    /\ \A j \in ReportedOpen : errs[j].s[2] \in opened
    /\ \A j, m \in ReportedOpen : j # m => errs[j].s[2] # errs[m].s[2]
(* While it runs past the first token, something is open.                   *)
OpenWhileRunning == over = "scan" /\ p > 0 => st # <<>>
(* An unmatched closing is reported only where nothing was open: at the     *)
(* first token.                                                             *)
UnmatchedOnlyFirst ==
    \A j \in 1..Len(errs) : errs[j].s[1] = "URD" => j = 1 /\ p = 0
=============================================================================
