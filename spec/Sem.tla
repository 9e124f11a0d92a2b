------------------------------- MODULE Sem -------------------------------
(***************************************************************************)
(* Reference semantics of the parser combinators: what a parser denotes,   *)
(* as a function of grammar node, token index and "recovery allowed".      *)
(*                                                                         *)
(* A context c is a record                                                 *)
(*   nodes : sequence of node records (grammar as a flat list)             *)
(*   t     : sequence of characters (the source)                           *)
(*   ta    : sequence of atoms (how the tokens of the source are shown)    *)
(*   off   : off[i+1] is the text of the offset of token index i           *)
(*   pfx   : prefix of locations and spans (file name, or "")              *)
(*   v     : TRUE for the error type without content                       *)
(* A result is a record                                                    *)
(*   k : "S" (success), "R" (recovered) or "F" (failed)                    *)
(*   o : output, a flat sequence of atoms                                  *)
(*   p : token index after the call                                        *)
(*   x : index of the token that could not be matched (F)                  *)
(*   e : sequence of error records (R, F)                                  *)
(*   f : how many items the source may have been asked for                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Locations

Alphabet == << "a", "b", "c", ",", "(", ")", "[", "]", "|", "n", "u", "w", "e", "r", "v", "k", "z", "y",
               "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
               "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
               "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "EOF" >>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(s) == { s[j] : j \in 1..Len(s) }

RECURSIVE FlatPart(_, _, _)
FlatPart(ss, j, m) ==
    IF j > m THEN <<>> ELSE IF j = m THEN ss[j]
    ELSE LET h == (j + m) \div 2 IN FlatPart(ss, j, h) \o FlatPart(ss, h + 1, m)
Flat(ss) == FlatPart(ss, 1, Len(ss))

---------------------------------------------------------------------------
(* Tokens, locations, spans                                                *)

Size(c) == Len(c.t)
AtEof(c, i) == i >= Size(c)
TokAt(c, i) == IF AtEof(c, i) THEN "EOF" ELSE c.ta[i + 1]
In(c, i, set) == ~AtEof(c, i) /\ c.t[i + 1] \in Range(set)

Loc(c, i) == c.pfx \o c.off[i + 1]
Span(c, i, j) == c.pfx \o c.off[i + 1] \o ".." \o c.off[j + 1]
NextEnd(c, i) == Min(i + 1, Size(c))
TokSpan(c, i) == Span(c, i, NextEnd(c, i))
AtLoc(c, i) == "L" \o Loc(c, i)
AtSpan(c, i, j) == "S" \o Span(c, i, j)

---------------------------------------------------------------------------
(* Errors                                                                  *)

VoidErr == [k |-> "V", ex |-> {}, fd |-> "", at |-> "-", s |-> << "V" >>]

ExpErr(c, ex, i, at) ==
    IF c.v THEN VoidErr
    ELSE [k |-> "EF", ex |-> ex, fd |-> TokAt(c, i), at |-> at, s |-> <<>>]

OtherErr(c, at, s) ==
    IF c.v THEN VoidErr ELSE [k |-> "X", ex |-> {}, fd |-> "", at |-> at, s |-> s]

(* An expected-found error made by a user, at a place of their choosing.   *)
Label(c, set, at) == IF c.v THEN VoidErr ELSE [k |-> "EF", ex |-> set, fd |-> "EOF", at |-> at, s |-> <<>>]

Custom(c, words, at) == OtherErr(c, at, << "CUS" >> \o words \o << at >>)

SortedEx(ex) == SelectSeq(Alphabet, LAMBDA a : a \in ex)
Enc(e) == IF e.k = "EF" THEN << "EF" >> \o SortedEx(e.ex) \o << "|", e.fd, e.at >> ELSE e.s
EncAll(es) == [j \in 1..Len(es) |-> Enc(es[j])]

---------------------------------------------------------------------------
(* Results                                                                 *)

Succ(o, p, f) == [k |-> "S", o |-> o, p |-> p, x |-> 0, e |-> <<>>, f |-> f]
Recd(o, p, e, f) == [k |-> "R", o |-> o, p |-> p, x |-> 0, e |-> e, f |-> f]
Fail(i, x, e, f) == [k |-> "F", o |-> <<>>, p |-> i, x |-> x, e |-> e, f |-> f]

WithOut(q, o) == [q EXCEPT !.o = o]
Wrap(h, o) == << h >> \o o \o << ")" >>

---------------------------------------------------------------------------
(* Alternatives: order of failures, merging                                *)

(* Indices of the failures by descending failure index, earliest first.    *)
RECURSIVE Order(_, _)
Order(fs, left) ==
    IF left = {} THEN <<>>
    ELSE LET b == CHOOSE j \in left :
                     \A m \in left : fs[j].x > fs[m].x \/ (fs[j].x = fs[m].x /\ j <= m)
         IN << b >> \o Order(fs, left \ {b})

MergeErrs(fs, ord) ==
    LET best == fs[ord[1]] IN
    IF Len(best.e) = 1 /\ best.e[1].k = "EF"
    THEN LET same == UNION { UNION { IF fs[j].e[m].k = "EF" /\ fs[j].e[m].at = best.e[1].at
                                     THEN fs[j].e[m].ex ELSE {}
                                     : m \in 1..Len(fs[j].e) } : j \in 1..Len(fs) }
         IN << [best.e[1] EXCEPT !.ex = best.e[1].ex \cup same] >>
    ELSE best.e

---------------------------------------------------------------------------
(* Nested delimiters: one token against the stack of open ones.            *)
(* ty: sequence of <<left, right>>; stack: sequence of [ty, tok, sp], last *)
(* is innermost. Result: [st, e].                                          *)

FirstIdx(ty, side, ch) ==
    LET S == { j \in 1..Len(ty) : ty[j][side] = ch }
    IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : j <= m

DelimTok(c, ty, stack, i) ==
    LET ch == c.t[i + 1]
        top == Len(stack)
        li == FirstIdx(ty, 1, ch)
        ri == FirstIdx(ty, 2, ch)
        open == { j \in 1..top : stack[j].ty = ri }
        keep(m) == SubSeq(stack, 1, m)
    IN IF top > 0 /\ ty[stack[top].ty][2] = ch THEN [st |-> keep(top - 1), e |-> <<>>]
       ELSE IF li # 0 THEN [st |-> Append(stack, [ty |-> li, tok |-> c.ta[i + 1], sp |-> TokSpan(c, i)]), e |-> <<>>]
       ELSE IF ri = 0 THEN [st |-> stack, e |-> <<>>]
       ELSE IF open # {}
            THEN LET m == CHOOSE j \in open : \A h \in open : h <= j
                 IN [st |-> keep(m - 1),
                     e |-> [j \in 1..(top - m) |->
                              LET d == stack[top + 1 - j]
                                  at == "S" \o TokSpan(c, i)
                              IN OtherErr(c, at, << "ULD", d.tok, d.sp, at >>)]]
       ELSE IF top > 0
            THEN [st |-> keep(top - 1),
                  e |-> << OtherErr(c, "S" \o TokSpan(c, i),
                             << "UDT", stack[top].tok, stack[top].sp, c.ta[i + 1], TokSpan(c, i) >>) >>]
       ELSE [st |-> stack, e |-> << OtherErr(c, "-", << "URD", c.ta[i + 1], TokSpan(c, i), "-" >>) >>]

(* Scan from i: returns [p, e, f].  s: [on, st, p, e]; up to 2^d tokens, in *)
(* halves.                                                                 *)
ScanTok(c, ty, s) ==
    IF AtEof(c, s.p)
    THEN LET n == Len(s.st)
         IN [s EXCEPT !.on = FALSE,
                      !.e = s.e \o [j \in 1..n |->
                              LET d == s.st[n + 1 - j]
                              IN OtherErr(c, AtLoc(c, s.p), << "ULD", d.tok, d.sp, AtLoc(c, s.p) >>)]]
    ELSE LET q == DelimTok(c, ty, s.st, s.p)
         IN IF q.st = <<>> THEN [s EXCEPT !.on = FALSE, !.st = <<>>, !.e = s.e \o q.e]
            ELSE [s EXCEPT !.st = q.st, !.p = s.p + 1, !.e = IF q.e = <<>> THEN s.e ELSE s.e \o q.e]
RECURSIVE ScanMany(_, _, _, _)
ScanMany(c, ty, s, d) ==
    IF d = 0 THEN ScanTok(c, ty, s)
    ELSE LET a == ScanMany(c, ty, s, d - 1)
         IN IF a.on THEN ScanMany(c, ty, a, d - 1) ELSE a
ScanDelims(c, ty, stack, i, es) ==
    LET q == ScanMany(c, ty, [on |-> TRUE, st |-> stack, p |-> i, e |-> es], 20)
    IN [p |-> q.p, f |-> q.p + 1, e |-> q.e]

RECURSIVE ScanCust(_, _, _, _, _)
ScanCust(c, n, tag, i, es) ==
    IF AtEof(c, i)
    THEN [p |-> i, f |-> i + 1, e |-> Append(es, Custom(c, << "se:" \o tag >>, AtLoc(c, i)))]
    ELSE LET es1 == Append(es, Custom(c, << "sc:" \o tag, c.ta[i + 1] >>, "S" \o TokSpan(c, i)))
         IN IF n <= 1 THEN [p |-> i, f |-> i + 1, e |-> es1]
            ELSE ScanCust(c, n - 1, tag, i + 1, es1)

(* The first place from i on, and before e, that is in the set, or e: by     *)
(* halves, so that long sources can be evaluated.                          *)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(c, set, i, e) ==
    IF i >= e THEN e
    ELSE IF i + 1 = e THEN (IF In(c, i, set) THEN i ELSE e)
    ELSE LET m == (i + e) \div 2
             j == FirstIn(c, set, i, m)
         IN IF j < m THEN j ELSE FirstIn(c, set, m, e)
FindFrom(c, set, i) == IF AtEof(c, i) THEN i ELSE FirstIn(c, set, i, Len(c.t))

UpdErrs(c, kind, es) ==
    CASE kind = "rev" -> [j \in 1..Len(es) |-> es[Len(es) + 1 - j]]
      [] kind = "dup" -> IF es = <<>> THEN es ELSE Append(es, es[1])
      [] kind = "clear" -> <<>>
      [] kind = "lab" -> << Label(c, {"c"}, "-") >>
      [] kind = "trunc" -> IF es = <<>> THEN es ELSE << es[1] >>
      [] OTHER -> [j \in 1..Len(es) |-> Custom(c, << "ut" >> \o Enc(es[j]), "-")]

---------------------------------------------------------------------------
(* What a fallible mapping function of the test grammars answers.          *)
TryAct(nd, o) == nd.acts[(Len(o) % Len(nd.acts)) + 1]
TryErrs(c, nd, act, i, p) ==
    LET e1 == Custom(c, << "te:" \o nd.t >>, AtSpan(c, i, p))
        e2 == Custom(c, << "tf:" \o nd.t >>, "-")
    IN CASE act = "ok" -> <<>>
         [] act \in {"err", "rec"} -> << e1 >>
         [] act = "lab" -> << Label(c, {"c"}, AtSpan(c, i, p)) >>
         [] act = "lab0" -> << Label(c, {"a", "c"}, "-") >>
         [] act = "lab2" -> << Label(c, {"b"}, "-"), e1, Label(c, {"c"}, AtSpan(c, i, p)) >>
         [] OTHER -> << e1, e2 >>

---------------------------------------------------------------------------
Panics == 1000000

RECURSIVE Ev(_, _, _, _)
RECURSIVE CatFrom(_, _, _, _, _)
RECURSIVE AltStrict(_, _, _, _, _)
RECURSIVE AltRecover(_, _, _, _, _, _)
RECURSIVE RepMany(_, _, _, _, _, _)
RECURSIVE Steps(_, _, _, _, _)
RECURSIVE LoopMany(_, _, _, _, _, _)
RECURSIVE SeqFrom(_, _, _, _, _)

(* Concatenation of nodes ids[k..] from acc.p; acc.os: outputs so far.      *)
CatFrom(c, ids, k, r, acc) ==
    IF k > Len(ids) THEN acc
    ELSE LET q == Ev(c, ids[k], acc.p, r)
         IN IF q.k = "F" THEN [acc EXCEPT !.k = "F", !.x = q.x, !.e = q.e, !.f = Max(acc.f, q.f)]
            ELSE CatFrom(c, ids, k + 1, r,
                   [acc EXCEPT !.k = IF acc.k = "R" \/ q.k = "R" THEN "R" ELSE "S",
                               !.os = Append(acc.os, q.o), !.p = q.p,
                               !.e = acc.e \o q.e, !.f = Max(acc.f, q.f)])

Cat(c, ids, i, r, Out(_)) ==
    LET q == CatFrom(c, ids, 1, r, [k |-> "S", os |-> <<>>, p |-> i, x |-> 0, e |-> <<>>, f |-> 0])
    IN IF q.k = "F" THEN Fail(i, q.x, q.e, q.f)
       ELSE [k |-> q.k, o |-> Out(q.os), p |-> q.p, x |-> 0, e |-> q.e, f |-> q.f]

(* First pass of an alternation: [done, res, fs, f].                        *)
AltStrict(c, ids, i, k, acc) ==
    IF k > Len(ids) THEN acc
    ELSE LET q == Ev(c, ids[k], i, FALSE)
         IN IF q.k = "F"
            THEN AltStrict(c, ids, i, k + 1,
                   [acc EXCEPT !.fs = Append(acc.fs, [x |-> q.x, e |-> q.e]), !.f = Max(acc.f, q.f)])
            ELSE [acc EXCEPT !.done = TRUE, !.res = << [q EXCEPT !.f = Max(acc.f, q.f)] >>]

AltRecover(c, ids, i, ord, k, f) ==
    IF k > Len(ord) THEN [done |-> FALSE, res |-> <<>>, f |-> f]
    ELSE LET q == Ev(c, ids[ord[k]], i, TRUE)
         IN IF q.k = "F" THEN AltRecover(c, ids, i, ord, k + 1, Max(f, q.f))
            ELSE [done |-> TRUE, res |-> << [q EXCEPT !.f = Max(f, q.f)] >>, f |-> Max(f, q.f)]

Alt(c, ids, i, r) ==
    LET a == AltStrict(c, ids, i, 1, [done |-> FALSE, res |-> <<>>, fs |-> <<>>, f |-> 0])
    IN IF a.done THEN a.res[1]
       ELSE LET ord == Order(a.fs, 1..Len(a.fs))
                b == IF r THEN AltRecover(c, ids, i, ord, 1, a.f)
                     ELSE [done |-> FALSE, res |-> <<>>, f |-> a.f]
            IN IF b.done THEN b.res[1]
               ELSE Fail(i, a.fs[ord[1]].x, MergeErrs(a.fs, ord), b.f)

(* Repetition. acc: [on, os, p, k, e, f, x]; i: where the repetition        *)
(* started. One round; on: there is another.                               *)
RepStep(c, nd, i, r, acc) ==
    LET len == Len(acc.os)
        full == nd.max >= 0 /\ len >= nd.max
        hasSep == Len(nd.ch) > 1
        recover == r /\ len < nd.min
        done(p, k, e, f) == [acc EXCEPT !.on = FALSE, !.k = k, !.p = p, !.e = e, !.f = f]
        fail(x, e, f) == [acc EXCEPT !.on = FALSE, !.k = "F", !.x = x, !.e = e, !.f = f]
        useSep == hasSep /\ (len > 0 \/ nd.lead)
    IN IF ~nd.trail /\ full THEN done(acc.p, acc.k, acc.e, acc.f)
       ELSE LET s == IF useSep THEN Ev(c, nd.ch[2], acc.p, recover /\ len > 0) ELSE Succ(<<>>, acc.p, 0)
                sepFailed == s.k = "F"
                p1 == s.p
                k1 == IF acc.k = "R" \/ s.k = "R" THEN "R" ELSE "S"
                e1 == IF sepFailed THEN acc.e ELSE acc.e \o s.e
                f1 == Max(acc.f, s.f)
            IN IF sepFailed /\ len > 0 /\ len >= nd.min THEN done(acc.p, acc.k, acc.e, f1)
               ELSE IF sepFailed /\ len > 0 THEN fail(s.x, s.e, f1)
               ELSE IF nd.trail /\ full THEN done(p1, k1, e1, f1)
               ELSE LET q == Ev(c, nd.ch[1], p1, recover)
                        f2 == Max(f1, q.f)
                    IN IF q.k # "F"
                       THEN [acc EXCEPT !.os = Append(acc.os, q.o), !.p = q.p, !.e = e1 \o q.e, !.f = f2,
                                        !.k = IF k1 = "R" \/ q.k = "R" THEN "R" ELSE "S"]
                       ELSE IF len >= nd.min
                       THEN done(IF useSep /\ ~nd.trail /\ len > 0 THEN acc.p ELSE p1, k1, e1, f2)
                       ELSE fail(q.x, q.e, f2)

(* Up to 2^d rounds (in halves: long repetitions are not deep to evaluate). *)
RepMany(c, nd, i, r, acc, d) ==
    IF d = 0 THEN RepStep(c, nd, i, r, acc)
    ELSE LET a == RepMany(c, nd, i, r, acc, d - 1)
         IN IF a.on THEN RepMany(c, nd, i, r, a, d - 1) ELSE a

Rep(c, nd, i, r) ==
    LET q == RepMany(c, nd, i, r, [on |-> TRUE, os |-> <<>>, p |-> i, k |-> "S", x |-> 0, e |-> <<>>, f |-> 0], 20)
    IN IF q.k = "F" THEN Fail(i, q.x, q.e, q.f)
       ELSE [k |-> q.k, o |-> << "[" >> \o Flat(q.os) \o << "]" >>, p |-> q.p, x |-> 0, e |-> q.e, f |-> q.f]

(* Recovery strategies. State s: [d, o, p, fa, e, f] with d = an output was *)
(* produced; fa = position of the failure of the last parser run.           *)
RunParser(c, n, s, ex, sil) ==
    LET q == Ev(c, n, s.p, ~ex)
        es == IF sil THEN s.e ELSE s.e \o q.e
        f1 == Max(s.f, q.f)
    IN IF q.k = "F" THEN [s EXCEPT !.fa = Max(q.x, s.p), !.e = es, !.f = f1]
       ELSE [s EXCEPT !.d = TRUE, !.o = q.o, !.p = q.p, !.e = es, !.f = f1]

Peeked(s) == [s EXCEPT !.f = Max(s.f, s.p + 1)]

LoopRound(c, st, pn, i, l) ==
    LET s0 == Peeked(l.s) IN
    IF AtEof(c, l.s.p) \/ In(c, l.s.p, st.set) THEN [on |-> FALSE, s |-> s0]
    ELSE LET q == Steps(c, st.in, 1, << pn, i >>, s0)
         IN IF q.d THEN [on |-> FALSE, s |-> q]
            ELSE [on |-> TRUE, s |-> [Peeked(q) EXCEPT !.p = NextEnd(c, q.p)]]
LoopMany(c, st, pn, i, l, d) ==
    IF d = 0 THEN LoopRound(c, st, pn, i, l)
    ELSE LET a == LoopMany(c, st, pn, i, l, d - 1)
         IN IF a.on THEN LoopMany(c, st, pn, i, a, d - 1) ELSE a
WhileNot(c, st, pn, i, s) == LoopMany(c, st, pn, i, [on |-> TRUE, s |-> s], 20).s

Step(c, st, pi, s) ==
    LET pn == pi[1]
        i == pi[2]
        push(words, at) == [s EXCEPT !.e = Append(s.e, Custom(c, words, at))]
    IN CASE st.s = "restart" -> [s EXCEPT !.p = i]
         [] st.s = "seekf" -> [s EXCEPT !.p = s.fa]
         [] st.s = "skip" -> [Peeked(s) EXCEPT !.p = NextEnd(c, s.p)]
         [] st.s = "skipif" -> [Peeked(s) EXCEPT !.p = IF In(c, s.p, st.set) THEN s.p + 1 ELSE s.p]
         [] st.s = "find" -> LET j == FindFrom(c, st.set, s.p) IN [s EXCEPT !.p = j, !.f = Max(s.f, j + 1)]
         [] st.s = "scan" -> LET q == ScanDelims(c, st.ty, <<>>, s.p, s.e)
                             IN [s EXCEPT !.p = q.p, !.e = q.e, !.f = Max(s.f, q.f)]
         [] st.s = "scanc" -> LET q == ScanCust(c, st.n, st.t, s.p, s.e)
                              IN [s EXCEPT !.p = q.p, !.e = q.e, !.f = Max(s.f, q.f)]
         [] st.s = "maybe" -> LET q == Steps(c, st.in, 1, pi, s)
                              IN IF q.d THEN q ELSE [q EXCEPT !.p = s.p]
         [] st.s = "whilenot" -> WhileNot(c, st, pn, i, s)
         [] st.s = "retry" -> RunParser(c, pn, s, st.ex, st.sil)
         [] st.s = "ttp" -> RunParser(c, st.p, s, st.ex, st.sil)
         [] st.s = "push" -> push(<< "p:" \o st.t >>, "-")
         [] st.s = "pushhere" -> push(<< "ph:" \o st.t >>, AtLoc(c, s.p))
         [] st.s = "pushup" -> push(<< "pu:" \o st.t >>, AtSpan(c, i, s.p))
         [] st.s = "pushtok" -> Peeked(push(<< "pt:" \o st.t, TokAt(c, s.p) >>, "S" \o TokSpan(c, s.p)))
         [] st.s = "upd" -> [s EXCEPT !.e = UpdErrs(c, st.t, s.e)]
         [] st.s = "updhere" -> push(<< "uh", ToString(Len(s.e)) >>, AtLoc(c, s.p))
         [] st.s = "updup" -> push(<< "uu", ToString(Len(s.e)) >>, AtSpan(c, i, s.p))
         [] st.s = "updtok" -> Peeked(push(<< "uk", ToString(Len(s.e)), TokAt(c, s.p) >>, "S" \o TokSpan(c, s.p)))
         [] st.s \in {"boxed", "nothing", "orfail"} -> s
         [] st.s = "ret" -> [s EXCEPT !.d = TRUE, !.o = << "r:" \o st.t >>]
         [] st.s = "retwith" -> [s EXCEPT !.d = TRUE, !.o = << "rw:" \o st.t >>]
         [] st.s = "retspan" -> [s EXCEPT !.d = TRUE, !.o = << "rs:" \o st.t, Span(c, i, s.p) >>]

(* Steps sts[k..]; pi = <<failed parser, where it started>>.                *)
Steps(c, sts, k, pi, s) ==
    IF k > Len(sts) \/ s.d THEN s ELSE Steps(c, sts, k + 1, pi, Step(c, sts[k], pi, s))

RecoverNode(c, nd, i, r) ==
    LET q == Ev(c, nd.ch[1], i, r)
    IN IF q.k # "F" \/ ~r THEN q
       ELSE LET s == Steps(c, nd.st, 1, << nd.ch[1], i >>,
                       [d |-> FALSE, o |-> <<>>, p |-> i, fa |-> Max(q.x, i), e |-> q.e, f |-> q.f])
            IN IF s.d THEN Recd(s.o, s.p, s.e, s.f) ELSE Fail(i, q.x, s.e, s.f)

(* Token sequences.                                                         *)
SeqFrom(c, set, k, i, p) ==
    IF k > Len(set) THEN Succ(Wrap("q(", set), p, p)
    ELSE IF ~AtEof(c, p) /\ c.t[p + 1] = set[k] THEN SeqFrom(c, set, k + 1, i, p + 1)
    ELSE Fail(i, p, << ExpErr(c, { set[k] }, p, "S" \o TokSpan(c, p)) >>, p + 1)

(* Parsers a user may write with the public interface of the stream: "look" *)
(* decides by the token nd.n places ahead; "peek" and "not" go back to      *)
(* where they started.                                                      *)
LookNode(c, nd, i) ==
    LET j == Min(i + nd.n, Size(c))
    IN IF In(c, j, nd.set)
       THEN Succ(<< "k", c.ta[j + 1], Span(c, i, j) >>, IF nd.x0 THEN j + 1 ELSE i + 1, j + 1)
       ELSE Fail(i, j, << Custom(c, << "k", TokAt(c, j) >>, AtLoc(c, j)) >>, j + 1)

TryMapNode(c, nd, i, r) ==
    LET q == Ev(c, nd.ch[1], i, r)
    IN IF q.k = "F" THEN q
       ELSE LET act == TryAct(nd, q.o)
                es == q.e \o TryErrs(c, nd, act, i, q.p)
                o == Append(q.o, Span(c, i, q.p))
            IN CASE act = "ok" -> [q EXCEPT !.o = Wrap("y:" \o nd.t \o "(", o)]
                 [] act \in {"err", "err2", "lab", "lab0", "lab2"} -> Fail(i, i, es, q.f)
                 [] OTHER -> IF r THEN Recd(Wrap("yr:" \o nd.t \o "(", o), q.p, es, q.f)
                             ELSE Fail(i, i, es, q.f)

Ev(c, n, i, r) ==
    LET nd == c.nodes[n]
        op == nd.op
        tokFail(ex, at) == Fail(i, i, << ExpErr(c, ex, i, at) >>, i + 1)
        atTok == "S" \o TokSpan(c, i)
        sub == Ev(c, nd.ch[1], i, r)
        first(os) == os[1]
        second(os) == os[2]
        mapOut(q, o) == IF q.k = "F" THEN q ELSE [q EXCEPT !.o = o]
    IN
    CASE op = "just" -> IF In(c, i, << nd.t >>) THEN Succ(<< c.ta[i + 1] >>, i + 1, i + 1)
                        ELSE tokFail({ nd.t }, atTok)
      [] op = "oneof" -> IF In(c, i, nd.set) THEN Succ(<< c.ta[i + 1] >>, i + 1, i + 1)
                         ELSE tokFail(Range(nd.set), atTok)
      [] op = "noneof" -> IF AtEof(c, i) THEN tokFail({}, AtLoc(c, i))
                          ELSE IF In(c, i, nd.set) THEN tokFail({}, atTok)
                          ELSE Succ(<< c.ta[i + 1] >>, i + 1, i + 1)
      [] op = "filter" -> IF In(c, i, nd.set) THEN Succ(<< c.ta[i + 1] >>, i + 1, i + 1)
                          ELSE tokFail({}, atTok)
      [] op = "fmap" -> IF In(c, i, nd.set) THEN Succ(<< "f:" \o c.ta[i + 1] >>, i + 1, i + 1)
                        ELSE tokFail({}, atTok)
      [] op = "seq" -> SeqFrom(c, nd.set, 1, i, i)
      [] op = "end" -> IF AtEof(c, i) THEN Succ(<< "()" >>, i, i + 1)
                       ELSE tokFail({ "EOF" }, AtLoc(c, i))
      [] op = "empty" -> Succ(<< "()" >>, i, i)
      [] op = "none" -> Succ(<< "None" >>, i, i)
      [] op = "cust" -> IF In(c, i, nd.set) THEN Succ(<< "c:" \o c.ta[i + 1] >>, i + 1, i + 1)
                        ELSE Fail(i, IF nd.x0 THEN 0 ELSE i,
                                  [j \in 1..nd.n |-> Custom(c, << "c" \o ToString(j - 1) >>, AtLoc(c, i))], i + 1)
      [] op = "look" -> LookNode(c, nd, i)
      [] op = "peek" -> [sub EXCEPT !.p = i]
      [] op = "not" -> LET q == Ev(c, nd.ch[1], i, FALSE)
                       IN IF q.k = "F" THEN Succ(<< "!" >>, i, q.f)
                          ELSE Fail(i, i, << Custom(c, << "not" >>, AtLoc(c, i)) >>, q.f)
      [] op \in {"then"} -> Cat(c, nd.ch, i, r, LAMBDA os : Wrap("(", os[1] \o os[2]))
      [] op = "thenig" -> Cat(c, nd.ch, i, r, first)
      [] op = "igthen" -> Cat(c, nd.ch, i, r, second)
      [] op = "delim" -> Cat(c, nd.ch, i, r, second)
      [] op = "pad" -> Cat(c, << nd.ch[1], nd.ch[2], nd.ch[1] >>, i, r, second)
      [] op = "chain" -> Cat(c, nd.ch, i, r, LAMBDA os : << "[" >> \o Flat(os) \o << "]" >>)
      [] op = "or" -> Alt(c, nd.ch, i, r)
      [] op = "alters" -> Alt(c, nd.ch, i, r)
      [] op = "ornot" ->
           \* the child (wrapped in Some), else nothing consumed: the second alternative never fails
           LET q == Ev(c, nd.ch[1], i, FALSE)
           IN IF q.k = "F" THEN Succ(<< "None" >>, i, q.f) ELSE [q EXCEPT !.o = Wrap("Some(", q.o)]
      [] op = "rep" -> Rep(c, nd, i, r)
      [] op = "rec" -> RecoverNode(c, nd, i, r)
      [] op = "trymap" -> TryMapNode(c, nd, i, r)
      [] op = "to" -> mapOut(sub, << "t:" \o nd.t >>)
      [] op = "ign" -> mapOut(sub, << "()" >>)
      [] op = "some" -> mapOut(sub, Wrap("Some(", sub.o))
      [] op = "map" -> mapOut(sub, Wrap("m:" \o nd.t \o "(", sub.o))
      [] op = "mapspan" -> mapOut(sub, Wrap("ms:" \o nd.t \o "(", Append(sub.o, Span(c, i, sub.p))))
      [] op = "label" -> [sub EXCEPT !.e = [j \in 1..Len(sub.e) |-> Label(c, Range(nd.set), "-")]]
      [] op = "labelspan" -> [sub EXCEPT !.e = [j \in 1..Len(sub.e) |-> Label(c, Range(nd.set), AtSpan(c, i, sub.p))]]
      [] op = "maperr" -> [sub EXCEPT !.e = [j \in 1..Len(sub.e) |->
                              Custom(c, << "me:" \o nd.t >> \o Enc(sub.e[j]), "-")]]
      [] op = "maperrspan" -> [sub EXCEPT !.e = [j \in 1..Len(sub.e) |->
                              Custom(c, << "mes:" \o nd.t >> \o Enc(sub.e[j]), AtSpan(c, i, sub.p))]]
      [] op \in {"boxed", "witherr", "def"} -> sub
      [] op = "ref" -> Ev(c, nd.d, i, r)
      \* a declaration without a definition: parsing through it panics (its reach tells)
      [] op = "undef" -> Fail(i, i, <<>>, Panics)
=============================================================================
