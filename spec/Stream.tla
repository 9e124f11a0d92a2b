-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* What a user of the backtracking token stream relies on: a cursor over a *)
(* fixed source of n tokens, saved positions, and nothing else.  Token i   *)
(* is represented by its index; -1 is end of input.                        *)
(*                                                                         *)
(*   cur   index of the next token                                         *)
(*   sl    saved positions (-1: none)                                      *)
(*   att   positions of the attempts under way                             *)
(*   req   how many items the source may have been asked for so far        *)
(*   far   how many tokens may have been read so far                       *)
(*   wide  longest distance so far between the oldest position that could  *)
(*         be returned to and the furthest token read                      *)
(*   ret   result of the last operation                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLES n, cur, sl, att, req, far, wide, ret
svars == << n, cur, sl, att, req, far, wide, ret >>

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Kept(c, s, a) == {c} \cup { s[x] : x \in { y \in Slots : s[y] >= 0 } } \cup { a[j] : j \in 1..Len(a) }
Window(f, c, s, a) == f - MinOf(Kept(c, s, a))

StreamInit(len) ==
    /\ n = len
    /\ cur = 0
    /\ sl = [s \in Slots |-> -1]
    /\ att = <<>>
    /\ req = 0
    /\ far = 0
    /\ wide = 0
    /\ ret = << "none", 0 >>

(* Every operation: new cursor, saved positions, attempts; how far it looks.*)
Op(name, v, c, s, a, look) ==
    /\ UNCHANGED n
    /\ cur' = c
    /\ sl' = s
    /\ att' = a
    /\ req' = Mx(req, look)
    /\ far' = Mx(far, Mn(look, n))
    /\ wide' = Mx(wide, Mx(Window(far', cur, sl, att), Window(far', c, s, a)))
    /\ ret' = << name, v >>

Bool(b) == IF b THEN 1 ELSE 0
TokOf(i) == IF i < n THEN i ELSE -1
Ahead(d) == Mn(cur + d, n)
LookTo(d) == IF cur + d <= n THEN cur + d ELSE n + 1
Span(i, j) == << i, j >>

Tok == Op("tok", TokOf(cur), cur, sl, att, cur + 1)
Eof == Op("eof", Bool(cur >= n), cur, sl, att, cur + 1)
Adv == Op("adv", Bool(cur < n), Ahead(1), sl, att, cur + 1)
AdvTo(d) == Op("advto", Bool(cur + d <= n), Ahead(d), sl, att, LookTo(d))
(* d single steps; the result is how many succeeded.                        *)
Walk(d) == Op("walk", Ahead(d) - cur, Ahead(d), sl, att, LookTo(d))
Idx == Op("idx", cur, cur, sl, att, 0)
Save(s) == Op("save", 0, cur, [sl EXCEPT ![s] = cur], att, 0)
SaveAt(s, d) == Op("saveat", 0, cur, [sl EXCEPT ![s] = Ahead(d)], att, LookTo(d))
Restore(s) == sl[s] >= 0 /\ Op("restore", 0, sl[s], sl, att, 0)
Drop(s) == sl[s] >= 0 /\ Op("drop", 0, cur, [sl EXCEPT ![s] = -1], att, 0)
IdxAt(s) == sl[s] >= 0 /\ Op("idxat", sl[s], cur, sl, att, 0)
TokAt(s) == sl[s] >= 0 /\ Op("tokat", TokOf(sl[s]), cur, sl, att, IF sl[s] = cur THEN cur + 1 ELSE 0)
Loc == Op("loc", cur, cur, sl, att, 0)
LocAt(s) == sl[s] >= 0 /\ Op("locat", sl[s], cur, sl, att, 0)
SpanTok == Op("span", Span(cur, Ahead(1)), cur, sl, att, cur + 1)
SpanBack(s) == sl[s] >= 0 /\ sl[s] <= cur /\ Op("spanback", Span(sl[s], cur), cur, sl, att, 0)
Try == Op("try", 0, cur, sl, Append(att, cur), 0)
Fin(a) == SubSeq(a, 1, Len(a) - 1)
Ok == att # <<>> /\ Op("ok", 0, cur, sl, Fin(att), 0)
Err == att # <<>> /\ Op("err", 0, att[Len(att)], sl, Fin(att), 0)

StreamNext(D, MaxAtt) ==
    \/ Tok \/ Eof \/ Adv \/ Idx \/ Loc \/ SpanTok \/ Ok \/ Err
    \/ Len(att) < MaxAtt /\ Try
    \/ \E d \in 0..D : AdvTo(d) \/ Walk(d)
    \/ \E s \in Slots : Save(s) \/ Restore(s) \/ Drop(s) \/ IdxAt(s) \/ TokAt(s) \/ LocAt(s) \/ SpanBack(s)
    \/ \E s \in Slots, d \in 0..D : SaveAt(s, d)

(* Consequences every behaviour has.                                        *)
StreamOK ==
    /\ cur \in 0..n
    /\ \A s \in Slots : sl[s] \in -1..n
    /\ far <= n /\ req <= n + 1 /\ far <= req
    /\ \A p \in Kept(cur, sl, att) : p <= far
    /\ wide <= far
=============================================================================
