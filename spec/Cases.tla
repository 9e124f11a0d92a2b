-------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* Small grammars and inputs, per property: a family enumerated completely *)
(* (every operator over every leaf) and a random sample of larger ones.    *)
(* Written to PPC_OUT, one case per line; Machine is explored on them and  *)
(* the real library is run on the same file.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Prop == IOEnv.PPC_PROP
Sample == atoi(IOEnv.PPC_SAMPLE)
Deep == atoi(IOEnv.PPC_DEPTH)
Limit == atoi(IOEnv.PPC_FAMILY)   \* at most about this many of the complete family (0: all)
Seed == atoi(IOEnv.PPC_SEED)

---------------------------------------------------------------------------
(* Trees: sequences of nodes, the last one is the root.                     *)
Just(ch) == [op |-> "just", t |-> ch]
SetNode(o, s) == [op |-> o, set |-> s, form |-> "vec"]
Cust(s, x0, n) == [op |-> "cust", set |-> s, x0 |-> x0, n |-> n]
Bare(o) == [op |-> o]
Look(s, x0, n) == [op |-> "look", set |-> s, x0 |-> x0, n |-> n]

ShiftSteps(st, d) ==
    LET one(x) == IF x.s = "ttp" THEN [x EXCEPT !.p = x.p + d] ELSE x
    IN [m \in 1..Len(st) |->
          IF st[m].s \in {"maybe", "whilenot"} THEN [st[m] EXCEPT !.in = [h \in 1..Len(st[m].in) |-> one(st[m].in[h])]] ELSE one(st[m])]
Shift(t, d) ==
    [j \in 1..Len(t) |->
       LET a == IF "ch" \in DOMAIN t[j] THEN [t[j] EXCEPT !.ch = [m \in 1..Len(t[j].ch) |-> t[j].ch[m] + d]]
                ELSE t[j]
       IN IF "st" \in DOMAIN a
          THEN [a EXCEPT !.st = ShiftSteps(a.st, d)]
          ELSE a]
Node(op, ts, ch, rest) == Append(ts, [ch |-> ch, op |-> op] @@ rest)

RECURSIVE Joined(_)
(* concatenation of trees, with the indices of their roots                  *)
Joined(trees) ==
    IF trees = <<>> THEN [t |-> <<>>, r |-> <<>>]
    ELSE LET a == Joined(SubSeq(trees, 1, Len(trees) - 1))
             b == trees[Len(trees)]
         IN [t |-> a.t \o Shift(b, Len(a.t)), r |-> Append(a.r, Len(a.t) + Len(b))]
Over(nd, trees) ==
    LET j == Joined(trees) IN Append(j.t, nd @@ [ch |-> j.r])

(* A parser that cannot succeed without consuming.                          *)
RECURSIVE Eats(_, _)
Eats(t, n) ==
    LET nd == t[n] IN
    CASE nd.op \in {"just", "oneof", "noneof", "filter", "fmap", "cust", "look"} -> TRUE
      [] nd.op = "seq" -> nd.set # <<>>
      [] nd.op \in {"end", "empty", "none", "ornot", "rec", "peek", "not"} -> FALSE
      [] nd.op \in {"or", "alters"} -> \A m \in 1..Len(nd.ch) : Eats(t, nd.ch[m])
      [] nd.op = "rep" -> nd.min > 0 /\ Eats(t, nd.ch[1])
      [] OTHER -> \E m \in 1..Len(nd.ch) : Eats(t, nd.ch[m])
(* Repetitions without a maximum only of parsers that consume.              *)
Sound(t) == \A n \in 1..Len(t) :
    t[n].op = "rep" /\ (t[n].max < 0 \/ t[n].max > 3) => Eats(t, t[n].ch[1])

---------------------------------------------------------------------------
Leaf0 == { Just("a"), Just("b"), SetNode("seq", << "a", "b" >>), Bare("end"), Bare("empty") }
Leaf1 == Leaf0 \cup
    { SetNode("oneof", << "a", "c" >>), SetNode("oneof", <<>>), SetNode("noneof", << "a" >>), SetNode("noneof", << "b", "c" >>),
      SetNode("filter", << "b" >>), SetNode("fmap", << "a" >>), SetNode("seq", <<>>), SetNode("seq", << "a", "a" >>),
      Bare("none"), Cust(<< "a" >>, FALSE, 1), Cust(<< "b" >>, Prop # "C12", 2), Just("c") } \cup
    (IF Prop = "C14" THEN {}   \* its output names locations
     ELSE { Look(<< "b" >>, FALSE, 1), Look(<< "a" >>, TRUE, 2), Look(<< "a", "b" >>, TRUE, 0) })
LeafT == { << l >> : l \in Leaf1 }

Rep(min, max, lead, trail) == [op |-> "rep", min |-> min, max |-> max, lead |-> lead, trail |-> trail, form |-> ""]
Reps == { Rep(m[1], m[2], FALSE, FALSE) : m \in { <<0, -1>>, <<1, -1>>, <<0, 1>>, <<1, 2>>, <<2, 2>>, <<0, 0>>, <<2, -1>> } }
SepReps == { Rep(m[1], m[2], l, t) : m \in { <<0, -1>>, <<1, -1>>, <<0, 1>>, <<1, 2>>, <<2, 2>>, <<2, -1>> },
                                     l \in BOOLEAN, t \in BOOLEAN }
Un(o) == [op |-> o]
Tagged(o) == [op |-> o, t |-> "u"]
Lab(o, s) == [op |-> o, set |-> s]
Cats == { Un("then"), Un("thenig"), Un("igthen"), Un("pad"), Un("chain") }
Alts == { Un("or"), Un("alters") }
Maps == { Tagged("to"), Un("ign"), Un("some"), Tagged("map"), Tagged("mapspan"), Tagged("maperr"), Tagged("maperrspan") }
TryLabels == { [op |-> "trymap", t |-> "y", acts |-> << a >>] : a \in {"lab", "lab2"} }
Labels == { Lab("label", << "c" >>), Lab("label", << "a", "b" >>), Lab("labelspan", << "c" >>) }
Wraps == { Un("boxed"), Un("witherr"), [op |-> "def", form |-> "fn"], [op |-> "def", form |-> "decl"], [op |-> "def", form |-> "early"] }
Trys == { [op |-> "trymap", t |-> "y", acts |-> a] :
          a \in { << "ok" >>, << "err" >>, << "err2" >>, << "rec" >>, << "rec2" >>, << "ok", "err" >>, << "rec", "ok" >>, << "err", "rec2", "ok" >>, << "lab" >>, << "lab0" >>, << "lab2" >> } }

S0(s) == [s |-> s]
St(s) == [s |-> s, t |-> "s"]
Ss(s, set) == [s |-> s, set |-> set]
Rt(ex, sil) == [s |-> "retry", ex |-> ex, sil |-> sil, p |-> 0]
SimpleSteps ==
    { S0("restart"), S0("seekf"), S0("skip"), Ss("skipif", << "a" >>), Ss("find", << "b" >>), Ss("find", << "a", "c" >>),
      Rt(FALSE, FALSE), Rt(TRUE, FALSE), Rt(FALSE, TRUE), Rt(TRUE, TRUE),
      St("push"), St("pushhere"), St("pushup"), St("pushtok"),
      [s |-> "upd", t |-> "rev"], [s |-> "upd", t |-> "dup"], [s |-> "upd", t |-> "trunc"], [s |-> "upd", t |-> "tag"], [s |-> "upd", t |-> "lab"],
      S0("updhere"), S0("updup"), S0("updtok"), [s |-> "scanc", n |-> 2, t |-> "z"], S0("boxed"), S0("nothing") }
LoopSteps == SimpleSteps \ { S0("restart"), S0("seekf") }
Nested ==
    { [s |-> "maybe", in |-> << x, y >>] : x \in { S0("skip"), Ss("find", << "b" >>), St("pushhere"), Rt(FALSE, TRUE) },
                                          y \in { Rt(FALSE, FALSE), Rt(TRUE, TRUE), St("pushtok"), S0("seekf") } } \cup
    { [s |-> "whilenot", set |-> set, in |-> i] :
        set \in { << "b" >>, << "c" >>, <<>> },
        i \in { <<>>, << Rt(FALSE, TRUE) >>, << Rt(FALSE, FALSE) >>, << St("pushtok") >>, << S0("skip"), Rt(TRUE, FALSE) >>,
                << [s |-> "maybe", in |-> << S0("skip"), Rt(FALSE, TRUE) >>] >> } }
Ends == { << St("ret") >>, << St("retwith") >>, << St("retspan") >>, << S0("orfail") >> }
Rec(st) == [op |-> "rec", st |-> st]
Recs1 == { Rec(<< s >> \o e) : s \in SimpleSteps \cup Nested, e \in { << St("retspan") >>, << S0("orfail") >> } }
      \cup { Rec(e) : e \in Ends }
Recs2 == { Rec(<< s, u, St("retspan") >>) : s \in SimpleSteps \cup Nested, u \in SimpleSteps \cup Nested }
(* Where a second failure is, when the first was further on.                *)
Recs3 == { Rec(<< s, u, v, St("retspan") >>) :
             s \in { S0("skip"), Ss("find", << "b" >>), S0("seekf"), St("pushhere") },
             u \in { Rt(e, FALSE) : e \in BOOLEAN } \cup { [s |-> "maybe", in |-> << S0("skip"), Rt(FALSE, TRUE) >>],
                    [s |-> "whilenot", set |-> << "c" >>, in |-> << Rt(TRUE, TRUE) >>] },
             v \in { S0("seekf"), S0("restart"), St("pushup") } }

(* Strategies around a step that runs another parser: trees of the child, of *)
(* the other parser, and the strategy, whose "ttp" steps refer to it.        *)
Ttp(ex, sil) == [s |-> "ttp", ex |-> ex, sil |-> sil, p |-> 0]
RecTtp(st, t, u) ==
    LET j == Joined(<< t, u >>)
        point(x) == IF x.s = "ttp" THEN [x EXCEPT !.p = j.r[2]]
                    ELSE IF x.s \in {"maybe", "whilenot"}
                    THEN [x EXCEPT !.in = [m \in 1..Len(x.in) |-> IF x.in[m].s = "ttp" THEN [x.in[m] EXCEPT !.p = j.r[2]] ELSE x.in[m]]]
                    ELSE x
    IN Append(j.t, [op |-> "rec", ch |-> << j.r[1] >>, st |-> [m \in 1..Len(st) |-> point(st[m])]])
Runs == { Ttp(e, q) : e \in BOOLEAN, q \in BOOLEAN }
RunsIn == Runs \cup { [s |-> "maybe", in |-> << Ttp(e, q) >>] : e \in BOOLEAN, q \in BOOLEAN }
          \cup { [s |-> "maybe", in |-> << Ttp(FALSE, TRUE), S0("seekf"), S0("skip") >>] }
          \cup { [s |-> "whilenot", set |-> << "c" >>, in |-> << Ttp(FALSE, q) >>] : q \in BOOLEAN }
Ran == { << x >> : x \in SimpleSteps } \cup { << S0(b), x >> : b \in {"boxed", "nothing", "restart"}, x \in { S0("seekf"), S0("skip"), Rt(FALSE, FALSE), St("pushup") } }
RecsTtp(Ts, Us) ==
    { RecTtp(pre \o << x >> \o post \o << St("retspan") >>, t, u) :
        pre \in { <<>>, << S0("skip") >> }, x \in RunsIn, post \in Ran, t \in Ts, u \in Us }

RecsFew == { Rec(<< St("ret") >>), Rec(<< S0("skip"), St("retspan") >>), Rec(<< Ss("find", << "b" >>), S0("skip"), Rt(FALSE, FALSE), S0("orfail") >>),
             Rec(<< S0("skip"), Rt(TRUE, TRUE), St("ret") >>), Rec(<< S0("seekf"), St("retspan") >>) }

GoBacks == { Un("peek"), Un("not") }
UnOps == GoBacks \cup Labels \cup Reps \cup Maps \cup Wraps \cup Trys \cup RecsFew \cup { Un("ornot") }
BinOps == Cats \cup Alts \cup SepReps
TriOps == { Un("delim"), Un("chain"), Un("alters") }

U(ops, ts) == { Over(o, << t >>) : o \in ops, t \in ts }
B(ops, ts, us) == { Over(o, << t, u >>) : o \in ops, t \in ts, u \in us }
T3(ops, ts) == { Over(o, << t, u, v >>) : o \in ops, t \in ts, u \in ts, v \in ts }
T0 == { << l >> : l \in Leaf0 }
Eat0 == { << Just("a") >>, << SetNode("seq", << "a", "b" >>) >>, << Just("b") >> }

---------------------------------------------------------------------------
(* What is enumerated completely for a property.                            *)
Family ==
    CASE Prop \in {"C05", "C02"} -> LeafT \cup U(GoBacks \cup Reps \cup Maps \cup { Un("ornot") }, LeafT) \cup B(Cats \cup Alts, LeafT, T0)
                            \cup B(Cats \cup Alts, U(GoBacks, Eat0 \cup B({ Un("then") }, Eat0, Eat0)), Eat0)
                            \cup T3(TriOps, Eat0) \cup B(SepReps, Eat0, Eat0)
      [] Prop = "C06" -> U(Reps, LeafT) \cup B(SepReps, T0, T0) \cup
                         B(SepReps, U({ Un("ornot"), Rep(1, 2, FALSE, FALSE) }, Eat0), Eat0) \cup
                         B(SepReps, U(RecsFew, Eat0), { << Just("b") >> }) \cup
                         B(SepReps, { << Just("a") >> }, U(RecsFew, { << Just("b") >>, << SetNode("seq", << "b", "c" >>) >> }))
      [] Prop = "C08" -> B(Alts, T0 \cup B(Cats, Eat0, Eat0), T0 \cup B({ Un("then") }, Eat0, Eat0)) \cup
                         T3({ Un("alters") }, T0 \cup B({ Un("then") }, Eat0, Eat0)) \cup
                         B({ Un("or") }, U(RecsFew, Eat0), U(RecsFew, Eat0) \cup T0) \cup
                         B(Alts, U(Labels, Eat0 \cup B({ Un("then") }, Eat0, Eat0)), U(Labels, Eat0 \cup B({ Un("then") }, Eat0, Eat0)) \cup T0) \cup
                         B(Alts, T0 \cup U(Labels, Eat0), U(TryLabels, Eat0)) \cup B(Alts, U(TryLabels, Eat0), T0 \cup U(Labels, Eat0)) \cup
                         T3({ Un("alters") }, Eat0 \cup U(TryLabels, Eat0))
      [] Prop = "C07" -> U(Recs1, Eat0) \cup B(Cats \cup Alts, U(RecsFew, Eat0), U(RecsFew, Eat0) \cup T0)
                         \cup U(Reps \cup Trys, U(RecsFew, Eat0))
      [] Prop = "C09" -> U(Recs1, LeafT) \cup U(Recs2, { << SetNode("seq", << "a", "b" >>) >>, << Just("b") >> }) \cup
                         U(Recs1, B({ Un("then") }, Eat0, U({ Rec(<< S0("skip"), St("ret") >>) }, Eat0))) \cup
                         RecsTtp({ << SetNode("seq", << "a", "b" >>) >>, << Just("b") >> },
                                 { << SetNode("seq", << "a", "b" >>) >>, << Just("a") >>, << Bare("none") >> } \cup
                                 U({ Rec(<< S0("skip"), St("ret") >>) }, { << Just("b") >> }))
      [] Prop = "C13" -> LeafT \cup B(Cats \cup Alts, LeafT, LeafT)
      [] Prop = "C15" -> U(Wraps, LeafT \cup U(Wraps \cup RecsFew \cup Reps, LeafT)) \cup
                         RecsTtp({ << SetNode("seq", << "a", "b" >>) >>, << Just("b") >> }, { << SetNode("seq", << "a", "b" >>) >> }) \cup B(Cats \cup Alts, U(Wraps, T0), T0)
      [] Prop = "C18" -> U(Trys, LeafT \cup U(RecsFew \cup Reps \cup { Un("ornot") }, T0) \cup B(Cats \cup Alts, T0, T0) \cup U(Trys, T0))
                         \cup B(Cats \cup Alts, U(Trys, Eat0), U(Trys, Eat0))
      [] Prop = "C19" -> U(Maps \cup Labels, LeafT \cup U(RecsFew \cup Maps \cup Reps \cup Trys, T0) \cup B(Cats \cup Alts, T0, T0))
      [] Prop = "C11" -> U({ Tagged("mapspan"), Tagged("maperrspan"), Lab("labelspan", << "c" >>) } \cup Trys,
                            LeafT \cup U(RecsFew \cup Reps \cup { Un("ornot") }, T0) \cup B(Cats \cup Alts, T0, T0)) \cup
                         U(Recs1, Eat0)
      [] OTHER -> LeafT \cup U(UnOps, T0) \cup B(BinOps, T0, Eat0) \cup U(Recs1, { << SetNode("seq", << "a", "b" >>) >> })

(* Larger ones at random.                                                   *)
OpsFor ==
    CASE Prop = "C05" -> [u |-> GoBacks \cup Reps \cup Maps \cup { Un("ornot") }, b |-> Cats \cup Alts \cup SepReps]
      [] Prop = "C06" -> [u |-> GoBacks \cup Reps \cup { Un("ornot") } \cup RecsFew, b |-> SepReps \cup Cats]
      [] Prop = "C08" -> [u |-> GoBacks \cup Labels \cup TryLabels \cup { Un("ornot") } \cup RecsFew \cup Reps, b |-> Alts \cup { Un("then"), Un("igthen") }]
      [] Prop \in {"C07", "C09"} -> [u |-> GoBacks \cup Recs1 \cup Recs2 \cup Reps \cup Trys, b |-> Cats \cup Alts \cup SepReps]
      [] OTHER -> [u |-> UnOps \cup Recs1, b |-> BinOps]
RECURSIVE Rand(_)
Rand(d) ==
    LET k == IF d = 0 THEN 0 ELSE RandomElement(0..7)
    IN IF k = 0 THEN << RandomElement(Leaf1) >>
       ELSE IF k <= 3 THEN Over(RandomElement(OpsFor.u), << Rand(d - 1) >>)
       ELSE IF k <= 6 THEN Over(RandomElement(OpsFor.b), << Rand(d - 1), Rand(d - 1) >>)
       ELSE Over(RandomElement(TriOps), << Rand(d - 1), Rand(d - 1), Rand(d - 1) >>)
(* Not a leaf, and sound.                                                   *)
Samples == SelectSeq([j \in 1..Sample |-> Rand(IF j % 3 = 0 THEN Deep + 1 ELSE Deep)],
                     LAMBDA t : Len(t) > 2 /\ Sound(t))

---------------------------------------------------------------------------
RECURSIVE Words(_, _)
Words(A, k) == IF k = 0 THEN { <<>> } ELSE Words(A, k - 1) \cup { Append(w, a) : w \in { v \in Words(A, k - 1) : Len(v) = k - 1 }, a \in A }
Inputs(full) ==
    CASE Prop = "C06" -> IF full THEN Words({ "a", "b" }, 5) ELSE Words({ "a", "b" }, 4)
      [] Prop = "C11" -> Words({ "a", "b" }, 2) \cup { << "n", "a", "b" >>, << "u", "w", "a", "b" >>, << "w", "b" >>, << "a", "n", "a" >>, << "a", "b", "e" >>, << "n" >>, << "r", "a", "b" >>, << "v", "b", "k" >>, << "k", "a", "b" >> }
      [] Prop = "C13" -> Words({ "a", "b", "c" }, 2)
      [] OTHER -> Words({ "a", "b" }, 3) \cup { << "c" >>, << "a", "c" >>, << "b", "c", "a" >>, << "a", "b", "a", "b" >>, << "b", "b", "a", "b" >>, << "a", "b", "c", "b" >> }

World(j) ==
    CASE Prop = "C11" -> IF j % 4 = 0 THEN "S" ELSE "R"
      [] Prop = "C12" -> "A"
      [] Prop = "C14" -> "S"
      [] OTHER -> << "S", "S", "S", "R", "S", "F", "V" >>[(j % 7) + 1]
Case(id, t, j, ins) ==
    [id |-> id \o ToString(j), prop |-> Prop, w |-> World(j), nodes |-> t, root |-> Len(t), pre |-> <<>>, inputs |-> ins]

(* Every k-th of the family if it is larger than asked for.                 *)
Thin(f) ==
    LET k == IF Limit = 0 \/ Len(f) <= Limit THEN 1 ELSE (Len(f) \div Limit) + 1
        m == (Len(f) - 1 - (Seed % k)) \div k
    IN IF k = 1 THEN f ELSE [j \in 1..(m + 1) |-> f[1 + (Seed % k) + (j - 1) * k]]
(* Always all of these.                                                     *)
Core == IF Prop = "C09" THEN U(Recs3, { << SetNode("seq", << "a", "b", "a" >>) >>, << SetNode("seq", << "a", "a", "b", "b" >>) >> })
        ELSE {}
All == LET f == SetToSeq(Core) \o Thin(SetToSeq({ t \in Family : Sound(t) }))
           s == Samples
           i1 == SetToSeq(Inputs(TRUE))
           i2 == SetToSeq(Inputs(FALSE))
       IN [j \in 1..Len(f) |-> Case(Prop \o "-f", f[j], j, i1)] \o [j \in 1..Len(s) |-> Case(Prop \o "-s", s[j], j, i2)]

VARIABLE x
Init == x = 0 /\ LET cs == All IN ndJsonSerialize(IOEnv.PPC_OUT, cs) /\ PrintT(<< "CASES", Len(cs), Cardinality(Family) >>)
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
