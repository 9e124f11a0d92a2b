----------------------------- MODULE MCLocations -----------------------------
(***************************************************************************)
(* C11: the row/column tracker, advanced token by token, against counting   *)
(* over the text of all preceding tokens; for every token sequence and      *)
(* every split into a text before the start location and the source.        *)
(***************************************************************************)
EXTENDS Sem
CONSTANTS MaxLen
Toks == {"a", "n", "u", "w", "e", "r", "v", "k"}

(* Characters of a token's text with their length in bytes.                 *)
TextOf(ch) == CASE ch = "n" -> << << "nl", 1 >> >>
                [] ch = "u" -> << << "e'", 2 >>, << "clef", 4 >> >>
                [] ch = "w" -> << << "x", 1 >>, << "nl", 1 >>, << "cr", 1 >>, << "nl", 1 >>, << "y", 1 >> >>
                [] ch = "e" -> <<>>
                [] ch = "r" -> << << "cr", 1 >> >>
                [] ch = "v" -> << << "nl", 1 >>, << "cr", 1 >> >>
                [] ch = "k" -> << << "e", 1 >>, << "acute", 2 >>, << "zwsp", 3 >>, << "ls", 3 >>, << "tab", 1 >>,
                                  << "zhong", 3 >>, << "vt", 1 >>, << "ff", 1 >>, << "nel", 2 >> >>
                [] OTHER -> << << "a", 1 >> >>
Text(t) == Flat([j \in 1..Len(t) |-> TextOf(t[j])])

VARIABLES t, row, col, byt
vars == << t, row, col, byt >>
Init == t = <<>> /\ row = 1 /\ col = 1 /\ byt = 0
Next == Len(t) < MaxLen /\ \E ch \in Toks :
    /\ t' = Append(t, ch)
    /\ row' = row + Newlines(ch) /\ col' = ColAfter(ch, col) /\ byt' = byt + Bytes(ch)
Spec == Init /\ [][Next]_vars

Nl(x) == { j \in 1..Len(x) : x[j][1] = "nl" }
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Head(x)[2] + Sum(Tail(x))
Counted ==
    LET x == Text(t)
        lastNl == IF Nl(x) = {} THEN 0 ELSE CHOOSE j \in Nl(x) : \A m \in Nl(x) : m <= j
    IN row = 1 + Cardinality(Nl(x)) /\ col = 1 + Len(x) - lastNl /\ byt = Sum(x)
(* The offsets used by the semantics, from any start location.              *)
Offsets ==
    \A k \in 0..Len(t) :
      LET pre == RichPos(SubSeq(t, 1, k), 1, << 1, 1, 0 >>)
          offs == RichOffs(SubSeq(t, k + 1, Len(t)), 1, pre[1], pre[2], pre[3], 0)
      IN offs[Len(offs)] = ToString(row) \o ":" \o ToString(col) \o ":" \o ToString(byt) \o ":" \o ToString(Len(t) - k)
(* Repeating a text.                                                        *)
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN <<>> ELSE x \o Times(x, k - 1)
Cycled ==
    t # <<>> => \A k \in 0..Len(t), m \in 0..(3 * Len(t)) :
      Len(t) <= 4 =>
        LET pre == RichPos(SubSeq(t, 1, k), 1, << 1, 1, 0 >>)
        IN CycPos(t, m, pre) = RichPos(SubSeq(Times(t, 3), 1, m), 1, pre)
=============================================================================
