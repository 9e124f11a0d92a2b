------------------------------- MODULE MCRender -------------------------------
(***************************************************************************)
(* Merging of errors in any order, and that a text identifies its error.   *)
(***************************************************************************)
EXTENDS Render

Toks == { "a", "b", "EOF" }
P0 == [k |-> "N", f |-> << 0, 0 >>, t |-> << 0, 0 >>]
P1 == [k |-> "L", f |-> << 1, 2 >>, t |-> << 0, 0 >>]
P2 == [k |-> "S", f |-> << 1, 2 >>, t |-> << 3, 1 >>]
Places == { P0, P1, P2 }
Lists == {<<>>} \cup { << a >> : a \in Toks } \cup { << a, b >> : a \in Toks, b \in Toks }
EFs == { ExpectedFound(s, f, p) : s \in Lists, f \in Toks, p \in Places }
Others == { UnmatchedLeft("a", P2, p) : p \in Places } \cup { UnmatchedRight("b", P2, p) : p \in Places }
          \cup { UnmatchedType("a", P2, "b", P2), Custom(<< "w" >>, P1), Custom(<<>>, P0) }

VARIABLES e, first, in, n
vars == << e, first, in, n >>
Init == e \in EFs \cup Others /\ first = e /\ in = (IF IsEF(e) THEN e.exp ELSE {}) /\ n = 0
Next == /\ n < 2 /\ n' = n + 1
        /\ \E o \in EFs \cup Others : e' = Merge(e, o) /\ in' = IF IsEF(e) /\ IsEF(o) THEN in \cup o.exp ELSE in
        /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

(* Merging only ever adds expected tokens.                                  *)
MergeAdds == IF IsEF(e) THEN e.exp = in /\ e.found = first.found /\ e.at = first.at ELSE e = first
(* Says is the same as being one of the texts, and every word of a text     *)
(* comes from the error, each expected token once.                          *)
Agree == \A w \in { "R", "U" } :
    /\ \A d \in Texts(w, e) : Says(w, e, d)
    /\ IsEF(e) => \A d \in Texts(w, e) : \A x \in e.exp \ {e.found} : Cardinality({ j \in 1..Len(d) : d[j] = x }) = 1
    /\ IsEF(e) => \A s \in UNION { [1..k -> Toks] : k \in 0..3 } :
         Says(w, e, s \o << e.found >> \o PlaceWords(w, e.at)) = (s \o << e.found >> \o PlaceWords(w, e.at) \in Texts(w, e))
(* Two different errors of one kind never share a text, unless one of them  *)
(* has an empty message or found token that could be an expected one.       *)
Distinct == IsEF(e) => \A o \in EFs : o.exp = e.exp /\ o # e => \A w \in { "R", "U" } : Texts(w, e) \cap Texts(w, o) = {}
=============================================================================
