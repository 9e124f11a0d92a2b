-------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* Error values, how they are merged, and what their rendered text says.   *)
(* C16.  The text is described by its significant words in order: tokens,  *)
(* EOF, parts of places, the words of a custom message.                    *)
(*                                                                         *)
(* A place is [k: "N" | "L" | "S", f: << row, column >>, t: << row, col >>];*)
(* w is the kind of location: "R" (file, row, column) or "U" (a location   *)
(* type of the user, displayed as one word).                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

PlaceWords(w, p) ==
    CASE p.k = "N" -> <<>>
      [] p.k = "L" -> IF w = "R" THEN << "FILE", ToString(p.f[1]), ToString(p.f[2]) >>
                      ELSE << "U" \o ToString(p.f[1]) \o "x" \o ToString(p.f[2]) >>
      [] OTHER -> IF w = "R" THEN << "FILE", ToString(p.f[1]), ToString(p.f[2]), ToString(p.t[1]), ToString(p.t[2]) >>
                  ELSE << "V" \o ToString(p.f[1]) \o "x" \o ToString(p.f[2]) \o "x" \o ToString(p.t[1]) \o "x" \o ToString(p.t[2]) >>
AsSpan(p) == [p EXCEPT !.k = "S"]

Set(s) == { s[j] : j \in 1..Len(s) }

(* Constructors.  e.exp is the set of expected tokens.                      *)
ExpectedFound(exp, found, at) == [v |-> "EF", exp |-> Set(exp), found |-> found, at |-> at]
UnmatchedLeft(l, ls, at) == [v |-> "UL", a |-> l, as |-> ls, at |-> at]
UnmatchedRight(r, rs, at) == [v |-> "UR", a |-> r, as |-> rs, at |-> at]
UnmatchedType(l, ls, r, rs) == [v |-> "UT", a |-> l, as |-> ls, b |-> r, bs |-> rs]
Custom(words, at) == [v |-> "CU", msg |-> words, at |-> at]

IsEF(e) == e.v = "EF"
(* Expected tokens are added; everything else of e stays.                   *)
Merge(e, other) == IF IsEF(e) /\ IsEF(other) THEN [e EXCEPT !.exp = @ \cup other.exp] ELSE e
At(e) == IF e.v = "UT" THEN AsSpan(e.bs) ELSE e.at

(* The text of e is one of Texts(w, e); Says decides membership without     *)
(* enumerating the orders of the expected tokens.                           *)
Perms(S) == { s \in [1..Cardinality(S) -> S] : Set(s) = S }
Texts(w, e) ==
    CASE e.v = "EF" -> { s \o << e.found >> \o PlaceWords(w, e.at) : s \in Perms(e.exp) }
      [] e.v \in {"UL", "UR"} -> { << e.a >> \o PlaceWords(w, AsSpan(e.as)) \o PlaceWords(w, e.at) }
      [] e.v = "UT" -> { << e.a >> \o PlaceWords(w, AsSpan(e.as)) \o << e.b >> \o PlaceWords(w, AsSpan(e.bs)) }
      [] OTHER -> { e.msg \o PlaceWords(w, e.at) }
Says(w, e, d) ==
    IF e.v # "EF" THEN d \in Texts(w, e)
    ELSE LET k == Cardinality(e.exp) IN
         /\ Len(d) >= k + 1
         /\ Set(SubSeq(d, 1, k)) = e.exp
         /\ SubSeq(d, k + 1, Len(d)) = << e.found >> \o PlaceWords(w, e.at)
=============================================================================
