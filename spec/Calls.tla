-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Which calls a parser makes: an acceptor that reads the calls made       *)
(* directly by one call of a node, in the order they began, and says       *)
(* what is wrong with them.  It knows nothing of results but what the      *)
(* calls themselves gave, so it can be asked about the machine (MCCalls)   *)
(* and about recorded runs of the library (ParseTrace) alike.              *)
(*                                                                         *)
(* A call is [u: who made it (0: nobody), n: node, i: start, r: recovery   *)
(* allowed, k: kind of result, p: end].  Making fewer calls than allowed   *)
(* is not what is judged here: the results are (Sem).                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CConcat == {"then", "thenig", "igthen", "delim", "pad", "chain"}
CAltern == {"or", "alters"}
CUnary == {"to", "ign", "some", "map", "mapspan", "maperr", "maperrspan", "label", "labelspan", "boxed", "witherr",
           "def", "ref", "trymap", "ornot", "peek", "not"}
CParts(nd) == IF nd.op = "pad" THEN << nd.ch[1], nd.ch[2], nd.ch[1] >> ELSE nd.ch

(* How often n occurs in a sequence.                                        *)
Times(s, n) == Cardinality({ j \in 1..Len(s) : s[j] = n })

(* The parsers that the steps of a strategy mention, one entry each time.   *)
RECURSIVE Mentioned(_, _)
Mentioned(sts, self) ==
    IF sts = <<>> THEN <<>>
    ELSE LET h == sts[1]
             mine == CASE h.s = "retry" -> << self >>
                       [] h.s = "ttp" -> << h.p >>
                       [] h.s \in {"maybe", "whilenot"} -> Mentioned(h.in, self)
                       [] OTHER -> <<>>
         IN mine \o Mentioned(Tail(sts), self)
RECURSIVE Loops(_)
Loops(sts) ==
    IF sts = <<>> THEN 0
    ELSE (CASE sts[1].s = "whilenot" -> 1 + Loops(sts[1].in)
            [] sts[1].s = "maybe" -> Loops(sts[1].in)
            [] OTHER -> 0) + Loops(Tail(sts))

(* How far the node is: parts or alternatives called, items taken, where    *)
(* the next part starts, what a repetition is about to do.                  *)
Fresh(q) == [n |-> 0, items |-> 0, at |-> q.i, ph |-> "start", over |-> FALSE, again |-> <<>>, tried |-> <<>>]

IsSep(nd, s, d) ==
    /\ Len(nd.ch) > 1 /\ d.n = nd.ch[2]
    /\ s.ph = "item" \/ (s.ph = "start" /\ nd.lead)
IsItem(nd, s, d) == d.n = nd.ch[1] /\ (s.ph \in {"start", "sep"} \/ (s.ph = "item" /\ Len(nd.ch) = 1))
NotFull(nd, s) == nd.max < 0 \/ s.items < nd.max

If1(b, w) == IF b THEN {} ELSE {w}
Wrong(nodes, nd, q, s, d) ==
    IF s.over THEN {"called a parser although its result was settled"}
    ELSE CASE nd.op \in CUnary ->
                If1(s.n = 0, "called its parser more than once") \cup
                If1(d.n \in (IF nd.op = "ref" THEN { nd.d, nodes[nd.d].ch[1] } ELSE { nd.ch[1] }), "called another parser") \cup
                If1(d.i = q.i, "called its parser elsewhere") \cup
                If1(d.r => q.r /\ nd.op \notin {"ornot", "not"}, "allowed recovery")
           [] nd.op \in CConcat ->
                If1(s.n < Len(CParts(nd)) /\ d.n = CParts(nd)[s.n + 1], "called its parts in another order") \cup
                If1(d.i = s.at, "called a part elsewhere") \cup
                If1(d.r => q.r, "allowed recovery")
           [] nd.op \in CAltern ->
                If1(d.i = q.i, "called an alternative elsewhere") \cup
                (IF ~d.r THEN If1(s.again = <<>> /\ s.n < Len(nd.ch) /\ d.n = nd.ch[s.n + 1], "called its alternatives in another order")
                 ELSE If1(q.r, "allowed recovery") \cup
                      If1(s.n = Len(nd.ch), "allowed recovery before all alternatives had failed") \cup
                      If1(Times(s.again, d.n) < Times(nd.ch, d.n), "called an alternative once more"))
           [] nd.op = "rep" ->
                If1(IsSep(nd, s, d) \/ IsItem(nd, s, d), "called item and separator in another order") \cup
                If1(NotFull(nd, s) \/ (IsSep(nd, s, d) /\ nd.trail), "went on after the maximum") \cup
                If1(d.i = s.at, "called item or separator elsewhere") \cup
                If1(d.r => q.r, "allowed recovery")
           [] nd.op = "rec" ->
                IF s.n = 0
                THEN If1(d.n = nd.ch[1] /\ d.i = q.i, "called another parser first") \cup If1(d.r => q.r, "allowed recovery")
                ELSE LET m == Mentioned(nd.st, nd.ch[1])
                     IN If1(Times(m, d.n) > 0, "the strategy called a parser it does not mention") \cup
                        If1(Loops(nd.st) > 1 \/ Times(s.tried, << d.n, d.i >>) < Times(m, d.n), "the strategy called a parser again at the same place")
           [] OTHER -> {"called a parser"}

After(nd, q, s, d) ==
    LET t == [s EXCEPT !.n = s.n + 1, !.at = IF d.k = "F" THEN s.at ELSE d.p]
        ok == d.k # "F"
    IN CASE nd.op \in CConcat -> [t EXCEPT !.over = ~ok]
         [] nd.op \in CAltern -> [t EXCEPT !.over = ok, !.n = IF d.r THEN s.n ELSE s.n + 1,
                                           !.again = IF d.r THEN Append(s.again, d.n) ELSE s.again]
         [] nd.op = "rep" ->
              IF IsSep(nd, s, d) THEN [t EXCEPT !.ph = "sep", !.over = ~ok /\ s.items > 0]
              ELSE [t EXCEPT !.ph = "item", !.items = s.items + 1, !.over = ~ok]
         [] nd.op = "rec" -> [t EXCEPT !.over = ok \/ ~q.r, !.tried = IF s.n = 0 THEN <<>> ELSE Append(s.tried, << d.n, d.i >>)]
         [] OTHER -> t

RECURSIVE Follow(_, _, _, _, _, _)
Follow(nodes, nd, q, s, D, j) ==
    IF j > Len(D) THEN {}
    ELSE LET w == Wrong(nodes, nd, q, s, D[j])
         IN IF w # {} THEN w ELSE Follow(nodes, nd, q, After(nd, q, s, D[j]), D, j + 1)

Made(log, v) == SelectSeq(SubSeq(log, v + 1, Len(log)), LAMBDA d : d.u = v)
CallsBad(nodes, log, v) == Follow(nodes, nodes[log[v].n], log[v], Fresh(log[v]), Made(log, v), 1)

(* What nobody called: the whole parser, as often as it was asked for.      *)
RootsBad(log, root, times) ==
    LET R == SelectSeq(log, LAMBDA d : d.u = 0)
    IN IF Len(R) <= times /\ \A j \in 1..Len(R) : R[j].n = root THEN {} ELSE {"the whole parser was called more than once"}
=============================================================================
