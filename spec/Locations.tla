------------------------------- MODULE Locations -------------------------------
(***************************************************************************)
(* Where token indices are in the text: the row/column tracker.            *)
(* Texts: n newline, u two characters of 2 and 4 bytes, w "x\n\r\ny",      *)
(* e empty, r a carriage return, v "\n\r", k nine characters of 17 bytes    *)
(* that look like something else (combining, wide, of no width, a tab, a   *)
(* form feed, U+2028, U+0085), z a line of 70000 characters, y 70000       *)
(* newlines; other characters stand for themselves.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* Row, column and byte offset of text: row and column are 1-based.        *)
Newlines(ch) == CASE ch = "n" -> 1 [] ch = "w" -> 2 [] ch = "v" -> 1 [] ch = "y" -> 70000 [] OTHER -> 0
ColAfter(ch, col) ==
    CASE ch = "n" -> 1 [] ch = "w" -> 2 [] ch = "e" -> col [] ch = "u" -> col + 2
      [] ch = "v" -> 2 [] ch = "k" -> col + 9 [] ch = "z" -> col + 70000 [] ch = "y" -> 1 [] OTHER -> col + 1
Bytes(ch) ==
    CASE ch = "e" -> 0 [] ch = "u" -> 6 [] ch = "w" -> 5 [] ch = "v" -> 2 [] ch = "k" -> 17
      [] ch \in {"z", "y"} -> 70000 [] OTHER -> 1

(* The tokens t[j..m] from << row, column, byte >> on: the place before     *)
(* each, and where they end (by halves: long texts are not deep).          *)
RowColByte(rcb, n) == ToString(rcb[1]) \o ":" \o ToString(rcb[2]) \o ":" \o ToString(rcb[3]) \o ":" \o ToString(n)
RECURSIVE RichWalk(_, _, _, _, _)
RichWalk(t, j, m, rcb, base) ==
    IF j > m THEN [at |-> <<>>, end |-> rcb]
    ELSE IF j = m
    THEN [at |-> << RowColByte(rcb, j - 1 + base) >>,
          end |-> << rcb[1] + Newlines(t[j]), ColAfter(t[j], rcb[2]), rcb[3] + Bytes(t[j]) >>]
    ELSE LET h == (j + m) \div 2
             one == RichWalk(t, j, h, rcb, base)
             two == RichWalk(t, h + 1, m, one.end, base)
         IN [at |-> one.at \o two.at, end |-> two.end]
RichOffs(t, j, row, col, byt, base) ==
    LET w == RichWalk(t, j, Len(t), << row, col, byt >>, base)
    IN Append(w.at, RowColByte(w.end, Len(t) + base))

RichPos(t, j, rcb) == RichWalk(t, j, Len(t), rcb, 0).end

(* The same after i tokens of the non-empty t over and over, from << row,   *)
(* column, byte >>, without walking through all of them.                    *)
CycPos(t, i, rcb) ==
    LET q == i \div Len(t)
        once == RichPos(t, 1, << 0, 1, 0 >>)
        col == IF q = 0 THEN rcb[2] ELSE IF once[1] = 0 THEN rcb[2] + q * (once[2] - 1) ELSE once[2]
    IN RichPos(SubSeq(t, 1, i % Len(t)), 1, << rcb[1] + q * once[1], col, rcb[3] + q * once[3] >>)

SimpleOffs(n) == [j \in 1..(n + 1) |-> ToString(j - 1)]
=============================================================================
