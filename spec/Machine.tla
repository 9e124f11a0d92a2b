------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* How the library works a parser off, as a state machine: a cursor, a     *)
(* stack of calls under way, and the result of the call that just ended.   *)
(* Every call keeps the position it started at; only some of them restore  *)
(* it explicitly, as in the code (attempt(), save()/restore()), the others *)
(* rely on what they called.  Deterministic for a given case.              *)
(*                                                                         *)
(* Checked in every state that ends a call (invariants at the end): the    *)
(* result is the one Sem gives to that call - whatever the calls around it *)
(* did before - and the guarantees of properties.jsonl.                    *)
(***************************************************************************)
EXTENDS Sem

CONSTANTS MaxSteps,
          Bug     \* "": none; others put a defect back that the code had

VARIABLES c,      \* the case: context of Sem plus root
          r0,     \* recovery allowed
          pos,    \* next token
          asked,  \* how many items the source was asked for
          stk,    \* calls under way, innermost last
          ret,    \* result of the call that just ended ([k |-> "-"]: none)
          last,   \* that call: node, start, recovery allowed
          steps
mvars == << c, r0, pos, asked, stk, ret, last, steps >>

NoRes == [k |-> "-", o |-> <<>>, x |-> 0, e |-> <<>>]
NoCall == [n |-> 0, i |-> 0, r |-> FALSE]
Bool(b) == IF b THEN 1 ELSE 0

(* A call of node n. ph: progress; sub: what is called for (strategies).    *)
Frame(n, i, r) ==
    [kd |-> "node", n |-> n, i |-> i, r |-> r, ph |-> 0, k |-> "S", os |-> <<>>, e |-> <<>>,
     fs |-> <<>>, sv |-> i, fa |-> i, sts |-> <<>>]

Start(case, rec) ==
    /\ c = case /\ r0 = rec
    /\ pos = 0 /\ asked = 0
    /\ stk = << Frame(case.root, 0, rec) >>
    /\ ret = NoRes /\ last = NoCall /\ steps = 0

Top == stk[Len(stk)]
Nd == c.nodes[Top.n]
Below == SubSeq(stk, 1, Len(stk) - 1)
Got == ret.k # "-"
Ask(p) == asked' = Max(asked, p)
Tick == steps' = steps + 1 /\ UNCHANGED << c, r0 >>

(* The innermost call becomes fr and calls n (recovery r) at the cursor.    *)
Call(fr, n, r, p) ==
    /\ stk' = Below \o << fr, Frame(n, p, r) >>
    /\ ret' = NoRes /\ last' = NoCall /\ pos' = p
    /\ UNCHANGED asked /\ Tick
(* The innermost call ends with this result and leaves the cursor at p.     *)
Ret(res, p) ==
    /\ stk' = Below
    /\ ret' = res /\ last' = [n |-> Top.n, i |-> Top.i, r |-> Top.r] /\ pos' = p /\ Tick
(* The innermost call goes on as fr.                                        *)
Go(fr, p) ==
    /\ stk' = Append(Below, fr)
    /\ ret' = NoRes /\ last' = NoCall /\ pos' = p /\ Tick

R4(k, o, x, e) == [k |-> k, o |-> o, x |-> x, e |-> e]
MFail(x, e) == R4("F", <<>>, x, e)
Join(k1, k2) == IF k1 = "R" \/ k2 = "R" THEN "R" ELSE "S"

---------------------------------------------------------------------------
(* Leaves look at the next token and take it or not.                        *)
LeafOps == {"just", "oneof", "noneof", "filter", "fmap", "seq", "end", "empty", "none", "cust", "look"}
Leaf ==
    /\ Nd.op \in LeafOps
    /\ LET q == Ev(c, Top.n, pos, Top.r)   \* leaves: no recursion in Ev
       IN Ret(R4(q.k, q.o, q.x, q.e), q.p) /\ Ask(q.f)

(* Wrappers.                                                                *)
WrapOps == {"to", "ign", "some", "map", "mapspan", "maperr", "maperrspan", "label", "labelspan", "boxed", "witherr", "def", "ref"}
Wrapper ==
    /\ Nd.op \in WrapOps
    /\ IF ~Got THEN Call(Top, IF Nd.op = "ref" THEN Nd.d ELSE Nd.ch[1], Top.r, pos)
       ELSE LET sp == Span(c, Top.i, pos)
                o == IF ret.k = "F" THEN <<>>
                     ELSE CASE Nd.op = "to" -> << "t:" \o Nd.t >>
                            [] Nd.op = "ign" -> << "()" >>
                            [] Nd.op = "some" -> Wrap("Some(", ret.o)
                            [] Nd.op = "map" -> Wrap("m:" \o Nd.t \o "(", ret.o)
                            [] Nd.op = "mapspan" -> Wrap("ms:" \o Nd.t \o "(", Append(ret.o, sp))
                            [] OTHER -> ret.o
                e == CASE Nd.op = "maperr" -> [j \in 1..Len(ret.e) |->
                              Custom(c, << "me:" \o Nd.t >> \o Enc(ret.e[j]), "-")]
                       [] Nd.op = "maperrspan" -> [j \in 1..Len(ret.e) |->
                              Custom(c, << "mes:" \o Nd.t >> \o Enc(ret.e[j]), "S" \o sp)]
                       [] Nd.op = "label" -> [j \in 1..Len(ret.e) |-> Label(c, Range(Nd.set), "-")]
                       [] Nd.op = "labelspan" -> [j \in 1..Len(ret.e) |-> Label(c, Range(Nd.set), "S" \o sp)]
                       [] OTHER -> ret.e
            IN Ret(R4(ret.k, o, ret.x, e), pos) /\ UNCHANGED asked

(* User-written parsers that go back to where they started.                *)
GoBack ==
    /\ Nd.op \in {"peek", "not"}
    /\ IF ~Got THEN Call(Top, Nd.ch[1], Nd.op = "peek" /\ Top.r, pos)
       ELSE /\ UNCHANGED asked
            /\ Ret(IF Nd.op = "peek" THEN ret
                   ELSE IF ret.k = "F" THEN R4("S", << "!" >>, 0, <<>>)
                   ELSE MFail(Top.i, << Custom(c, << "not" >>, AtLoc(c, Top.i)) >>), Top.i)

(* Concatenations: attempt { one part after the other }.                    *)
CatOps == {"then", "thenig", "igthen", "delim", "pad", "chain"}
Parts(nd) == IF nd.op = "pad" THEN << nd.ch[1], nd.ch[2], nd.ch[1] >> ELSE nd.ch
CatOut(nd, os) ==
    CASE nd.op = "then" -> Wrap("(", os[1] \o os[2])
      [] nd.op = "thenig" -> os[1]
      [] nd.op = "chain" -> << "[" >> \o Flat(os) \o << "]" >>
      [] OTHER -> os[2]
Concat ==
    /\ Nd.op \in CatOps
    /\ LET ids == Parts(Nd)
           fr == IF Got THEN [Top EXCEPT !.ph = Top.ph + 1, !.os = Append(Top.os, ret.o),
                                         !.e = Top.e \o ret.e, !.k = Join(Top.k, ret.k)]
                 ELSE Top
       IN IF Got /\ ret.k = "F" THEN Ret(ret, Top.i) /\ UNCHANGED asked
          ELSE IF fr.ph = Len(ids) THEN Ret(R4(fr.k, CatOut(Nd, fr.os), 0, fr.e), pos) /\ UNCHANGED asked
          ELSE Call(fr, ids[fr.ph + 1], Top.r, pos)

(* Alternatives: all without recovery, then, if allowed, with recovery in   *)
(* order of the failures.  ph: 0 first pass, 1 second pass; sv: position in *)
(* the order.                                                               *)
AltOps == {"or", "alters"}
Alternation ==
    /\ Nd.op \in AltOps
    /\ LET m == Len(Nd.ch)
           fs == IF Got /\ ret.k = "F" /\ Top.ph = 0 THEN Append(Top.fs, [x |-> ret.x, e |-> ret.e]) ELSE Top.fs
           fr == [Top EXCEPT !.fs = fs]
           ord == Order(fs, 1..Len(fs))
           lost == Ret(MFail(fs[ord[1]].x, MergeErrs(fs, ord)), pos) /\ UNCHANGED asked
       IN IF Got /\ ret.k # "F" THEN Ret(ret, pos) /\ UNCHANGED asked
          ELSE IF Top.ph = 0 /\ Len(fs) < m THEN Call(fr, Nd.ch[Len(fs) + 1], FALSE, pos)
          ELSE IF ~Top.r THEN lost
          ELSE IF Top.ph = 0 THEN Call([fr EXCEPT !.ph = 1, !.sv = 1], Nd.ch[ord[1]], TRUE, pos)
          ELSE IF Top.sv < m THEN Call([fr EXCEPT !.sv = Top.sv + 1], Nd.ch[ord[Top.sv + 1]], TRUE, pos)
          ELSE lost

(* Optional: the part without recovery, else nothing.                       *)
Optional ==
    /\ Nd.op = "ornot"
    /\ IF ~Got THEN Call(Top, Nd.ch[1], FALSE, pos)
       ELSE (IF ret.k = "F" THEN Ret(R4("S", << "None" >>, 0, <<>>), pos)
             ELSE Ret([ret EXCEPT !.o = Wrap("Some(", ret.o)], pos)) /\ UNCHANGED asked

(* Repetition. ph: 0 between items, 1 separator under way, 2 item under way.*)
(* sv: where to go back to if the item under way does not match.            *)
Repetition ==
    /\ Nd.op = "rep"
    /\ LET len == Len(Top.os)
           full == Nd.max >= 0 /\ len >= Nd.max
           rec == Top.r /\ len < Nd.min
           useSep == Len(Nd.ch) > 1 /\ (len > 0 \/ Nd.lead)
           done(p, fr) == Ret(R4(fr.k, << "[" >> \o Flat(fr.os) \o << "]" >>, 0, fr.e), p) /\ UNCHANGED asked
           fail == Ret(MFail(ret.x, ret.e), Top.i) /\ UNCHANGED asked
           \* after the separator (or without one)
           item(fr, back) ==
               IF Nd.trail /\ full THEN done(pos, fr)
               ELSE Call([fr EXCEPT !.ph = 2, !.sv = back], Nd.ch[1], rec, pos)
           taken == [Top EXCEPT !.k = Join(Top.k, ret.k), !.e = IF Bug = "rep" THEN Top.e ELSE Top.e \o ret.e]
       IN CASE Top.ph = 0 ->
                 IF ~Nd.trail /\ full THEN done(pos, Top)
                 ELSE IF useSep THEN Call([Top EXCEPT !.ph = 1, !.sv = pos], Nd.ch[2], rec /\ len > 0, pos)
                 ELSE item(Top, pos)
            [] Top.ph = 1 ->
                 IF ret.k # "F" THEN item(taken, IF Nd.trail \/ (len = 0 /\ Bug # "lead") THEN pos ELSE Top.sv)
                 ELSE IF len = 0 THEN item(Top, pos)
                 ELSE IF len >= Nd.min THEN done(pos, Top)
                 ELSE fail
            [] Top.ph = 2 ->
                 IF ret.k # "F"
                 THEN Go([taken EXCEPT !.ph = 0, !.os = Append(Top.os, ret.o)], pos) /\ UNCHANGED asked
                 ELSE IF len >= Nd.min THEN done(Top.sv, Top)
                 ELSE fail

(* Fallible mapping.                                                        *)
TryMapping ==
    /\ Nd.op = "trymap"
    /\ IF ~Got THEN Call(Top, Nd.ch[1], Top.r, pos)
       ELSE /\ UNCHANGED asked
            /\ IF ret.k = "F" THEN Ret(ret, pos)
               ELSE LET act == TryAct(Nd, ret.o)
                        es == ret.e \o TryErrs(c, Nd, act, Top.i, pos)
                        o == Append(ret.o, Span(c, Top.i, pos))
                    IN IF act = "ok" THEN Ret(R4(ret.k, Wrap("y:" \o Nd.t \o "(", o), 0, es), pos)
                       ELSE IF act \in {"rec", "rec2"} /\ Top.r
                       THEN Ret(R4("R", Wrap("yr:" \o Nd.t \o "(", o), 0, es), pos)
                       ELSE Ret(MFail(Top.i, es), IF Bug = "trymap" THEN pos ELSE Top.i)

---------------------------------------------------------------------------
(* Recovery.  The node runs its parser; on failure it starts a program of   *)
(* steps.  A program is a frame of kind "prog" working on the error list    *)
(* and failure position of the frame below; it ends with "done" (output) or *)
(* "next".  fs of a program: <<failed parser, its start>>.                  *)
Prog(sts, n, i, e, fa, p, w) ==
    [Frame(n, i, TRUE) EXCEPT !.kd = "prog", !.sts = sts, !.e = e, !.fa = fa, !.sv = p, !.k = w]
Recover ==
    /\ Nd.op = "rec"
    /\ CASE Top.ph = 0 -> IF Bug = "twice" THEN Call([Top EXCEPT !.ph = 3], Nd.ch[1], FALSE, pos)
                          ELSE Call([Top EXCEPT !.ph = 1], Nd.ch[1], Top.r, pos)
         [] Top.ph = 3 -> \* only with the defect: had it failed, it is run once more
              IF ret.k # "F" THEN Ret(ret, pos) /\ UNCHANGED asked
              ELSE Call([Top EXCEPT !.ph = 1], Nd.ch[1], Top.r, pos)
         [] Top.ph = 1 ->
              IF ret.k # "F" \/ ~Top.r THEN Ret(ret, pos) /\ UNCHANGED asked
              ELSE /\ stk' = Below \o << [Top EXCEPT !.ph = 2, !.fa = ret.x],
                                        Prog(Nd.st, Nd.ch[1], Top.i, ret.e, Max(ret.x, Top.i), pos, "main") >>
                   /\ ret' = NoRes /\ last' = NoCall /\ UNCHANGED << pos, asked >> /\ Tick
         [] OTHER -> \* the program ended: ret.k "S" with its output or "F", ret.e all errors
              /\ UNCHANGED asked
              /\ IF ret.k = "F" THEN Ret(MFail(Top.fa, ret.e), Top.i)
                 ELSE Ret(R4("R", ret.o, 0, ret.e), pos)

Done(fr, out) == \* the program produced its output
    /\ stk' = Below /\ ret' = R4("S", out, fr.fa, fr.e) /\ last' = NoCall
    /\ UNCHANGED << pos, asked >> /\ Tick
Out(fr) == \* the program is over without one
    /\ stk' = Below /\ ret' = R4("F", <<>>, fr.fa, fr.e) /\ last' = NoCall
    /\ pos' = IF fr.k = "maybe" THEN fr.sv ELSE pos
    /\ UNCHANGED asked /\ Tick
Nxt(fr) == [fr EXCEPT !.ph = fr.ph + 1]
Push(fr, words, at) == [fr EXCEPT !.e = Append(fr.e, Custom(c, words, at)), !.ph = fr.ph + 1]
Inner(fr, p) ==
    /\ stk' = Below \o << fr, p >> /\ ret' = NoRes /\ last' = NoCall
    /\ UNCHANGED << pos, asked >> /\ Tick

Program ==
    LET fr == Top
        i == fr.i
    IN IF fr.ph = Len(fr.sts) THEN Out(fr)
       ELSE LET st == fr.sts[fr.ph + 1]
                s == st.s
                sub(p, kind) == Prog(st.in, fr.n, i, fr.e, fr.fa, p, kind)
                \* back from an inner program
                back == [fr EXCEPT !.e = ret.e, !.fa = ret.x]
                peek == Ask(pos + 1)
            IN CASE s = "restart" -> Go(Nxt(fr), i) /\ UNCHANGED asked
                 [] s = "seekf" -> Go(Nxt(fr), fr.fa) /\ UNCHANGED asked
                 [] s = "skip" -> Go(Nxt(fr), NextEnd(c, pos)) /\ peek
                 [] s = "skipif" -> Go(Nxt(fr), IF In(c, pos, st.set) THEN pos + 1 ELSE pos) /\ peek
                 [] s = "find" -> \* one token at a time
                      IF AtEof(c, pos) \/ In(c, pos, st.set) THEN Go(Nxt(fr), pos) /\ peek
                      ELSE Go(fr, pos + 1) /\ peek
                 [] s = "scan" -> \* os: open delimiters
                      IF AtEof(c, pos)
                      THEN LET q == ScanDelims(c, st.ty, fr.os, pos, fr.e)
                           IN Go([fr EXCEPT !.ph = fr.ph + 1, !.e = q.e, !.os = <<>>], pos) /\ peek
                      ELSE LET q == DelimTok(c, st.ty, fr.os, pos)
                           IN IF q.st = <<>> THEN Go([fr EXCEPT !.ph = fr.ph + 1, !.e = fr.e \o q.e, !.os = <<>>], pos) /\ peek
                              ELSE Go([fr EXCEPT !.e = fr.e \o q.e, !.os = q.st], pos + 1) /\ peek
                 [] s = "scanc" -> LET q == ScanCust(c, st.n, st.t, pos, fr.e)
                                   IN Go([fr EXCEPT !.ph = fr.ph + 1, !.e = q.e], q.p) /\ Ask(q.f)
                 [] s = "maybe" ->
                      IF ~Got THEN Inner(fr, sub(pos, "maybe"))
                      ELSE IF ret.k = "S" THEN Done(back, ret.o)
                      ELSE Go(Nxt(back), pos) /\ UNCHANGED asked
                 [] s = "whilenot" ->
                      IF ~Got
                      THEN IF AtEof(c, pos) \/ In(c, pos, st.set) THEN Go(Nxt(fr), pos) /\ peek
                           ELSE /\ stk' = Below \o << fr, sub(pos, "loop") >> /\ ret' = NoRes /\ last' = NoCall
                                /\ UNCHANGED pos /\ peek /\ Tick
                      ELSE IF ret.k = "S" THEN Done(back, ret.o)
                      ELSE Go(back, NextEnd(c, pos)) /\ peek
                 [] s \in {"retry", "ttp"} ->
                      IF ~Got THEN Call([fr EXCEPT !.sv = IF fr.k = "maybe" THEN fr.sv ELSE pos, !.r = TRUE,
                                                   !.fs = << pos >>],
                                        IF s = "retry" THEN fr.n ELSE st.p, ~st.ex, pos)
                      ELSE LET es == IF st.sil THEN fr.e ELSE fr.e \o ret.e
                           IN IF ret.k = "F"
                              THEN Go([fr EXCEPT !.ph = fr.ph + 1, !.e = es, !.fa = Max(ret.x, fr.fs[1])], pos)
                                   /\ UNCHANGED asked
                              ELSE Done([fr EXCEPT !.e = es], ret.o)
                 [] s = "push" -> Go(Push(fr, << "p:" \o st.t >>, "-"), pos) /\ UNCHANGED asked
                 [] s = "pushhere" -> Go(Push(fr, << "ph:" \o st.t >>, AtLoc(c, pos)), pos) /\ UNCHANGED asked
                 [] s = "pushup" -> Go(Push(fr, << "pu:" \o st.t >>, AtSpan(c, i, pos)), pos) /\ UNCHANGED asked
                 [] s = "pushtok" -> Go(Push(fr, << "pt:" \o st.t, TokAt(c, pos) >>, "S" \o TokSpan(c, pos)), pos) /\ peek
                 [] s = "upd" -> Go([Nxt(fr) EXCEPT !.e = UpdErrs(c, st.t, fr.e)], pos) /\ UNCHANGED asked
                 [] s = "updhere" -> Go(Push(fr, << "uh", ToString(Len(fr.e)) >>, AtLoc(c, pos)), pos) /\ UNCHANGED asked
                 [] s = "updup" -> Go(Push(fr, << "uu", ToString(Len(fr.e)) >>, AtSpan(c, i, pos)), pos) /\ UNCHANGED asked
                 [] s = "updtok" -> Go(Push(fr, << "uk", ToString(Len(fr.e)), TokAt(c, pos) >>, "S" \o TokSpan(c, pos)), pos) /\ peek
                 [] s \in {"boxed", "nothing", "orfail"} -> Go(Nxt(fr), pos) /\ UNCHANGED asked
                 [] s = "ret" -> Done(fr, << "r:" \o st.t >>)
                 [] s = "retwith" -> Done(fr, << "rw:" \o st.t >>)
                 [] s = "retspan" -> Done(fr, << "rs:" \o st.t, Span(c, i, pos) >>)

---------------------------------------------------------------------------
MachineStep ==
    /\ stk # <<>>
    /\ IF Top.kd = "prog" THEN Program
       ELSE Leaf \/ Wrapper \/ GoBack \/ Concat \/ Alternation \/ Optional \/ Repetition \/ TryMapping \/ Recover

Finished == stk = <<>>
Ended == last.n # 0   \* a call of a node just ended

---------------------------------------------------------------------------
(* Invariants.                                                              *)

TypeOK == pos \in 0..Size(c) /\ ret.k \in {"-", "S", "R", "F"}

(* Every call, in whatever context it is made, does what Sem says.          *)
AsSem ==
    Ended => LET q == Ev(c, last.n, last.i, last.r)
             IN ret.k = q.k /\ ret.o = q.o /\ pos = q.p /\ ret.e = q.e /\ (ret.k = "F" => ret.x = q.x)
(* C02: nothing was requested beyond what Sem allows.                       *)
Lazy == Finished => asked <= Ev(c, c.root, 0, r0).f
(* C04                                                                      *)
FailConsumesNothing == Ended /\ ret.k = "F" => pos = last.i
NeverBackwards == Ended => pos >= last.i
(* C07                                                                      *)
RecoveredHasErrors == Ended /\ ret.k = "R" => ret.e # <<>> /\ last.r
SuccessHasNone == Ended /\ ret.k = "S" => ret.e = <<>>
RecoveryHonest ==
    Finished /\ r0 => LET s == Ev(c, c.root, 0, FALSE)
                      IN IF s.k = "S" THEN ret.k = "S" /\ ret.o = s.o /\ pos = s.p ELSE ret.k # "S"
(* C08: a failure is not before the start of the parser that failed (except *)
(* where a user's parser said so) and has errors.                           *)
FailureSane == Ended /\ ret.k = "F" => ret.x <= Size(c)
(* C17                                                                      *)
Terminates == steps <= MaxSteps
=============================================================================
