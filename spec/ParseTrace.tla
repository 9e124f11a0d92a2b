------------------------------ MODULE ParseTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of the real parsers against the semantics (Sem).   *)
(*                                                                         *)
(* The file named by PPC_TRACES holds one case per line: a grammar (flat   *)
(* node list), inputs, and for every input the observed result of every    *)
(* run (entry point, world, recovery allowed or not), with, if asked for,  *)
(* one event per call of a parser node.  PPC_PROP selects which relation   *)
(* between observation and semantics is decided.  Rejected observations    *)
(* are printed as REJECT tuples; cases are distributed over TLC's workers. *)
(***************************************************************************)
EXTENDS Context, Calls, Json, IOUtils

Prop == IOEnv.PPC_PROP
Data == ndJsonDeserialize(IOEnv.PPC_TRACES)
NumCases == Len(Data)

---------------------------------------------------------------------------
(* The same context with every location renamed: atoms that differ between  *)
(* the two evaluations are locations and spans.                            *)
Shadow(c) == [c EXCEPT !.off = [j \in 1..Len(c.off) |-> c.off[j] \o "#"]]

---------------------------------------------------------------------------
(* Comparing an observed result (e: sequence of atom sequences) with one of *)
(* the semantics.  Each yields the set of the parts that differ.            *)

If(b, s) == IF b THEN {} ELSE {s}

SameK(q, s) == q.k = s.k
Full(q, s) ==
    If(q.k = s.k, "kind") \cup
    (IF q.k # s.k THEN {} ELSE
       If(q.o = s.o, "output") \cup If(q.p = s.p, "position") \cup If(q.x = s.x, "failure index")
       \cup If(q.e = EncAll(s.e), "errors"))
KOP(q, s) ==
    If(q.k = s.k, "kind") \cup
    (IF q.k # s.k THEN {} ELSE If(q.o = s.o, "output") \cup If(q.p = s.p, "position"))
MatchOP(q, s) ==
    If((q.k = "F") = (s.k = "F"), "kind") \cup
    (IF (q.k = "F") # (s.k = "F") THEN {} ELSE If(q.o = s.o, "output") \cup If(q.p = s.p, "position"))

SameAtoms(obs, sem, shadow) ==
    Len(obs) = Len(sem) =>
      \A j \in 1..Len(sem) : sem[j] # shadow[j] => obs[j] = sem[j]

Locations(q, s, sh) ==
    IF q.k # s.k \/ q.p # s.p THEN {}
    ELSE LET se == EncAll(s.e)
             he == EncAll(sh.e)
         IN If(SameAtoms(q.o, s.o, sh.o), "span in output") \cup
            If(Len(q.e) = Len(se) =>
                 \A m \in 1..Len(se) : SameAtoms(q.e[m], se[m], he[m]), "location in error")

---------------------------------------------------------------------------
(* Events                                                                  *)

IsPanic(run) == "res" \in DOMAIN run /\ run.res.k = "P"
HasEv(run) == "ev" \in DOMAIN run
Leaves == {"just", "oneof", "noneof", "filter", "fmap", "seq", "end"}
Mappers == {"to", "ign", "some", "map", "mapspan", "maperr", "maperrspan", "label", "labelspan"}
Alts == {"or", "alters"}

(* Calls of the child made directly by call v (an index into ev).           *)
ChildCalls(ev, v, child) ==
    { j \in 1..Len(ev) : ev[j].u = v /\ ev[j].n = child /\ ev[j].i = ev[v].i /\ ev[j].r = ev[v].r }
MaxOf(S) == CHOOSE j \in S : \A m \in S : m <= j
LastOf(S) == CHOOSE j \in S : \A m \in S : m <= j

(* What a mapping node makes of the observed result of its child.           *)
MapObs(c, nd, q, i) ==
    LET sp == Span(c, i, q.p)
        o == IF q.k = "F" THEN <<>>
             ELSE CASE nd.op = "to" -> << "t:" \o nd.t >>
                    [] nd.op = "ign" -> << "()" >>
                    [] nd.op = "some" -> Wrap("Some(", q.o)
                    [] nd.op = "map" -> Wrap("m:" \o nd.t \o "(", q.o)
                    [] nd.op = "mapspan" -> Wrap("ms:" \o nd.t \o "(", Append(q.o, sp))
                    [] OTHER -> q.o
        er(e) == IF c.v THEN << "V" >>
                 ELSE IF nd.op \in {"label", "labelspan"}
                 THEN Enc(Label(c, Range(nd.set), IF nd.op = "label" THEN "-" ELSE "S" \o sp))
                 ELSE IF nd.op = "maperr" THEN << "CUS", "me:" \o nd.t >> \o e \o << "-" >>
                 ELSE << "CUS", "mes:" \o nd.t >> \o e \o << "S" \o sp >>
    IN [k |-> q.k, o |-> o, p |-> q.p, x |-> q.x,
        e |-> IF nd.op \in {"maperr", "maperrspan", "label", "labelspan"} THEN [j \in 1..Len(q.e) |-> er(q.e[j])] ELSE q.e]

(* Likewise for a fallible mapping.                                         *)
TryObs(c, nd, q, i, r) ==
    IF q.k = "F" THEN [k |-> "F", o |-> <<>>, p |-> i, x |-> q.x, e |-> q.e]
    ELSE LET act == TryAct(nd, q.o)
             es == q.e \o EncAll(TryErrs(c, nd, act, i, q.p))
             o == Append(q.o, Span(c, i, q.p))
         IN CASE act = "ok" -> [k |-> q.k, o |-> Wrap("y:" \o nd.t \o "(", o), p |-> q.p, x |-> 0, e |-> es]
              [] act \in {"rec", "rec2"} /\ r ->
                   [k |-> "R", o |-> Wrap("yr:" \o nd.t \o "(", o), p |-> q.p, x |-> 0, e |-> es]
              [] OTHER -> [k |-> "F", o |-> <<>>, p |-> i, x |-> i, e |-> es]

Diff(q, s) ==
    If(q.k = s.k, "kind") \cup
    (IF q.k # s.k THEN {} ELSE
       If(q.o = s.o, "output") \cup If(q.p = s.p, "position") \cup If(q.x = s.x, "failure index")
       \cup If(q.e = s.e, "errors"))

EventBad(c, ev, v) ==
    LET q == ev[v]
        nd == c.nodes[q.n]
        sem == Ev(c, q.n, q.i, q.r)
        calls == ChildCalls(ev, v, nd.ch[1])
    IN CASE Prop = "C04" -> IF q.k = "F" THEN If(q.p = q.i, "moved on failure") ELSE {}
         [] Prop = "C05" -> KOP(q, sem)
         [] Prop = "C06" -> IF nd.op # "rep" THEN {}
                            ELSE IF q.r THEN MatchOP(q, sem) ELSE KOP(q, sem)
         [] Prop = "C07" ->
              If(q.r \/ q.k # "R", "recovered although disallowed") \cup
              If(q.k # "R" \/ q.e # <<>>, "recovered without errors") \cup
              (IF q.k = "R" /\ sem.k = "R" /\ q.o = sem.o /\ q.p = sem.p
               THEN If(q.e = EncAll(sem.e), "errors") ELSE {})
         [] Prop = "C08" ->
              IF q.k # sem.k
              THEN \* not because an alternative did something else: they were not tried as they should be
                   IF nd.op \in Alts /\ \A j \in 1..Len(ev) : ev[j].u = v => ev[j].k = Ev(c, ev[j].n, ev[j].i, ev[j].r).k
                   THEN {"kind, although every alternative tried did as expected"} ELSE {}
              ELSE IF q.k = "F" THEN If(q.x = sem.x, "failure index") \cup If(q.e = EncAll(sem.e), "errors")
              ELSE IF q.k = "R" /\ nd.op \in Alts
                   THEN If(q.o = sem.o, "output") \cup If(q.e = EncAll(sem.e), "errors")
              ELSE {}
         [] Prop \in {"C09", "C10"} -> IF nd.op = "rec" THEN Full(q, sem) ELSE {}
         [] Prop = "C11" -> Locations(q, sem, Ev(Shadow(c), q.n, q.i, q.r))
         [] Prop = "C13" -> IF nd.op \in Leaves THEN Full(q, sem) ELSE {}
         [] Prop = "C18" ->
              IF nd.op # "trymap" THEN {}
              ELSE IF calls = {} THEN Full(q, sem)
              ELSE Diff(q, TryObs(c, nd, ev[LastOf(calls)], q.i, q.r))
         [] Prop = "C19" ->
              IF nd.op \notin Mappers THEN {}
              ELSE IF calls = {} THEN Full(q, sem)
              ELSE Diff(q, MapObs(c, nd, ev[LastOf(calls)], q.i))
         [] Prop = "C22" -> CallsBad(c.nodes, ev, v)
         [] OTHER -> {}

---------------------------------------------------------------------------
(* Whole runs                                                              *)

(* A token of the rest that was skipped is recorded as "?".                  *)
TailIs(run, rest) ==
    Len(run.tail) = Len(rest) /\ \A j \in 1..Len(rest) : run.tail[j] \in {"?", rest[j]}
Rest(c, p) == IF p >= Size(c) THEN <<>> ELSE SubSeq(c.ta, p + 1, Size(c))

(* Streaming: items with their start index, against the semantics.          *)
ItemsBad(c, run) ==
    LET it == run.items
        n == Len(it)
        start(j) == IF j = 1 THEN 0 ELSE it[j - 1].p
        last == IF n = 0 THEN 0 ELSE it[n].p
    IN UNION { If(it[j].i = start(j), "item starts elsewhere") \cup
               If(start(j) < Size(c), "item although nothing is left") : j \in 1..n } \cup
       (IF run.ended THEN If(last >= Size(c), "ended although tokens are left")
        ELSE If(n = run.calls, "wrong number of items")) \cup
       If(TailIs(run, Rest(c, last)), "tail") \cup
       If(run.kept, "what the iterators say about their length is wrong, or they go on after their end")

(* Tokens held after each item, against the longest stretch of the source an *)
(* item needed so far.                                                      *)
HeapAllowed(w) == 64 * (4 * w + 64) + 8192
RECURSIVE HeldBad(_, _, _)
HeldBad(it, j, w) ==
    IF j > Len(it) THEN {}
    ELSE LET w1 == Max(w, it[j].pull - it[j].i)
         IN IF it[j].live > 4 * w1 + 64 THEN {"holds too many tokens after item " \o ToString(j)}
            ELSE IF it[j].heap > HeapAllowed(w1) THEN {"holds too much memory after item " \o ToString(j)}
            ELSE HeldBad(it, j + 1, w1)

(* The same while the rest is taken token by token; and none of the rest is *)
(* asked of the source before its turn (the token itself is needed).        *)
TailHeldBad(run) ==
    LET it == run.items
        w == MaxOf({1} \cup { it[j].pull - it[j].i : j \in 1..Len(it) })
        S == { j \in 1..Len(run.tlive) : run.tlive[j] > 4 * w + 64 }
        H == { j \in 1..Len(run.theap) : run.theap[j] > HeapAllowed(w) }
    IN (IF S = {} THEN {} ELSE {"holds too many tokens while the rest is taken"}) \cup
       (IF H = {} THEN {} ELSE {"holds too much memory while the rest is taken"})
TailPulled(run) ==
    LET it == run.items
        n == Len(it)
        from == IF n = 0 THEN 0 ELSE it[n].p
    IN If(\A j \in 1..Len(run.tpull) : run.tpull[j] <= Max(run.pull, from + j - 1), "source asked too early for the rest")

OthersBad(c, run, exact) ==
    UNION { LET a == run.items[j]
                b == run.others[j]
            IN If(a.k = b.k, "kind of item") \cup
               (IF a.k # b.k THEN {} ELSE
                  If(a.p - a.i = b.p, "length of item") \cup
                  If(a.k # "F" \/ a.x = b.x + a.i, "failure index of item") \cup
                  (IF exact THEN If(a.o = b.o, "output of item") \cup If(a.e = b.e, "errors of item") ELSE {}))
            : j \in 1..Len(run.items) }

Pulled(q, sem) ==
    IF KOP(q, sem) # {} THEN {} ELSE If(q.pull <= sem.f, "source asked too early")

(* Result of the same parser through another entry point or error type.     *)
View(q) == << q.k, q.o, q.x, q.e >>
EntryBad(c, base, strict, run) ==
    LET q == run.res
        same == run.w = ""
        b == IF run.r THEN base.res ELSE strict.res
    IN CASE run.en = "raw" /\ same -> {}
         [] run.en = "raw" ->
              If(q.k = b.k, "kind in other world") \cup If(q.x = b.x, "failure index in other world") \cup
              If(q.p = b.p, "position in other world") \cup
              If(run.w # "V" \/ q.o = b.o, "output in other world") \cup
              If(run.w = "V" \/ Len(q.o) = Len(b.o), "output in other world")
         [] run.en \in {"pwr", "pwrl"} /\ same -> If(View(q) = View(b), "recovering parse")
         [] run.en \in {"pwr", "pwrl"} -> If(q.k = b.k /\ q.x = b.x, "recovering parse in other world")
         [] run.en = "streamd" ->
              IF Size(c) = 0 THEN If(q.k = "N", "streaming parse")
              ELSE If(View(q) = View(b), "streaming parse")
         [] OTHER -> \* parse, pl
              IF b.k = "S"
              THEN If(q.k = "S" /\ (run.w = "R" \/ q.o = b.o), "plain parse")
              ELSE If(q.k = "E" /\ (same => b.e # <<>> /\ q.e # <<>> /\ q.e[1] = b.e[1]), "plain parse")

First(runs, Test(_)) ==
    LET S == { j \in 1..Len(runs) : Test(runs[j]) }
    IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : j <= m

RunBad(case, t, runs, k) ==
    LET run == runs[k]
        c == Ctx(case, t, run.w)
        q == run.res
        raw == run.en = "raw"
        sem == Ev(c, run.root, 0, run.r)
        strictJ == First(runs, LAMBDA x : x.en = "raw" /\ ~x.r /\ x.w = run.w)
        strict0J == First(runs, LAMBDA x : x.en = "raw" /\ ~x.r /\ x.w = "")
        baseJ == First(runs, LAMBDA x : x.en = "raw" /\ x.r /\ x.w = "")
        twin == First(runs, LAMBDA x : x.en = "raw" /\ x.r = run.r /\ x.w = run.w)
    IN IF Prop = "C17" THEN If(~IsPanic(run), "panic")
       ELSE IF IsPanic(run) THEN IF Prop = "C02" THEN {} ELSE {"panic"}
       ELSE CASE Prop = "C01" -> IF raw THEN If(run.tail = Rest(c, q.p), "tail") ELSE {}
         [] Prop = "C02" ->
              If(run.after = 0, "source asked after its end") \cup
              (IF raw THEN Pulled([q EXCEPT !.e = <<>>] @@ [pull |-> run.pull], sem)
               ELSE UNION { LET it == run.items[j]
                                s1 == Ev(c, run.root, it.i, TRUE)
                            IN Pulled(it, [s1 EXCEPT !.f =
                                  Max(Max(s1.f, it.i + 1), IF j = 1 THEN 0 ELSE run.items[j - 1].pull)])
                            : j \in 1..Len(run.items) } \cup TailPulled(run))
         [] Prop = "C03" -> HeldBad(run.items, 1, 0) \cup TailHeldBad(run)
         [] Prop = "C04" -> IF raw /\ q.k = "F" THEN If(q.p = 0, "moved on failure") ELSE {}
         [] Prop = "C05" -> IF raw THEN KOP(q, sem) ELSE {}
         [] Prop = "C06" -> IF run.r THEN MatchOP(q, sem) ELSE KOP(q, sem)
         [] Prop = "C07" ->
              IF ~run.r THEN If(q.k # "R", "recovered although disallowed")
              ELSE LET s == runs[strictJ].res IN
                   If(q.k # "R" \/ q.e # <<>>, "recovered without errors") \cup
                   (IF s.k = "S" THEN If(q.k = "S" /\ q.o = s.o /\ q.p = s.p, "success changed by allowing recovery")
                    ELSE If(q.k # "S", "success only by allowing recovery")) \cup
                   (IF q.k = "R" /\ sem.k = "R" /\ q.o = sem.o /\ q.p = sem.p
                    THEN If(q.e = EncAll(sem.e), "errors") ELSE {})
         [] Prop = "C08" ->
              IF q.k # sem.k \/ q.k # "F" THEN {}
              ELSE If(q.x = sem.x, "failure index") \cup If(q.e = EncAll(sem.e), "errors")
         [] Prop \in {"C09", "C10", "C13"} -> \* where there are no events, the root is what is judged
              IF raw /\ ~HasEv(run) /\
                 (IF Prop = "C13" THEN c.nodes[run.root].op \in Leaves ELSE c.nodes[run.root].op = "rec")
              THEN Full(q, sem) ELSE {}
         [] Prop = "C11" ->
              IF raw THEN Locations(q, sem, Ev(Shadow(c), run.root, 0, run.r))
              ELSE UNION { LET it == run.items[j]
                           IN Locations(it, Ev(c, run.root, it.i, TRUE), Ev(Shadow(c), run.root, it.i, TRUE))
                           : j \in 1..Len(run.items) }
         [] Prop = "C12" -> ItemsBad(c, run) \cup OthersBad(c, run, case.w = "A")
         [] Prop = "C14" ->
              IF IsPanic(runs[baseJ]) THEN {} ELSE EntryBad(c, runs[baseJ], runs[strict0J], run)
         [] Prop = "C15" ->
              IF twin = k \/ IsPanic(runs[twin]) THEN {}
              ELSE Diff(q, runs[twin].res) \cup If(run.tail = runs[twin].tail, "tail")
         [] Prop = "C22" -> RootsBad(run.ev, run.root, IF raw THEN 1 ELSE Len(run.items))
         [] OTHER -> {}

---------------------------------------------------------------------------
Report(case, ti, k, v, what) ==
    PrintT(<< "REJECT", case.id, ti, k, v, ToString(what) >>)

CheckRun(case, ti, k) ==
    LET inp == case.ins[ti]
        run == inp.runs[k]
        bad == RunBad(case, inp.t, inp.runs, k)
        c == Ctx(case, inp.t, run.w)
    IN /\ IF bad = {} THEN TRUE ELSE Report(case, ti, k, 0, bad)
       /\ IF HasEv(run)
          THEN \A v \in 1..Len(run.ev) :
                 LET eb == EventBad(c, run.ev, v)
                 IN IF eb = {} THEN TRUE ELSE Report(case, ti, k, v, eb)
          ELSE TRUE

CheckCase(case) ==
    \A ti \in 1..Len(case.ins) : \A k \in 1..Len(case.ins[ti].runs) : CheckRun(case, ti, k)

---------------------------------------------------------------------------
(* One state per case: first fan out, then check.                           *)
VARIABLE st
Init == st = << 0, FALSE >>
Next ==
    \/ st[1] = 0 /\ \E b \in 1..NumCases : st' = << b, FALSE >>
    \/ st[1] > 0 /\ ~st[2] /\ (CheckCase(Data[st[1]]) = TRUE) /\ st' = << st[1], TRUE >>
Spec == Init /\ [][Next]_st
=============================================================================
