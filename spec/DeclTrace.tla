------------------------------- MODULE DeclTrace -------------------------------
(***************************************************************************)
(* Checks recorded histories of recursive declarations against Decl: what  *)
(* a handle or a parser parses is what the semantics (Sem) give for the    *)
(* grammar the history has put together so far.                            *)
(***************************************************************************)
EXTENDS Context, Decl, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.PPC_TRACES)
If(b, s) == IF b THEN {} ELSE {s}

(* The grammar so far: [nodes; d: node of each declaration; q: node of each *)
(* parser]. A template is put in by appending all nodes of the case, with   *)
(* references to its holes (nodes 1 and 2) led to declarations.             *)
RECURSIVE Shifted(_, _)
Shifted(sts, n) ==
    [j \in 1..Len(sts) |->
        CASE sts[j].s = "ttp" -> [sts[j] EXCEPT !.p = @ + n]
          [] sts[j].s \in {"maybe", "whilenot"} -> [sts[j] EXCEPT !.in = Shifted(@, n)]
          [] OTHER -> sts[j]]
Copy(nodes, n, a, b) ==
    [j \in 1..Len(nodes) |->
        LET nd == nodes[j]
            x == IF "ch" \in DOMAIN nd THEN [nd EXCEPT !.ch = [m \in 1..Len(nd.ch) |-> nd.ch[m] + n]] ELSE nd
        IN CASE x.op = "ref" -> [x EXCEPT !.d = IF @ = 1 THEN a ELSE IF @ = 2 THEN b ELSE @ + n]
             [] x.op = "rec" -> [x EXCEPT !.st = Shifted(@, n)]
             [] OTHER -> x]
Undef == [op |-> "undef"]
Add(c, g, t, a, b) == [g EXCEPT !.nodes = @ \o Copy(c.n, Len(@), a, b)]
RootOf(c, g, t) == Len(g.nodes) + c.tpl[t]

(* The grammar after an operation of a state.                               *)
Grow(c, st, g, op) ==
    LET as == Args(st, op)
        at(x) == g.d[x]
    IN CASE op.o = "declare" -> [g EXCEPT !.nodes = Append(@, Undef), !.d = Append(@, Len(g.nodes) + 1)]
         [] op.o = "define" /\ st.d[st.h[op.h]].k = "no" ->
              [Add(c, g, op.t, at(as[1]), at(as[2])) EXCEPT !.nodes[at(st.h[op.h])] = [op |-> "def", ch |-> << RootOf(c, g, op.t) >>]]
         [] op.o = "rec" ->
              LET me == Len(g.nodes) + 1
                  g1 == [g EXCEPT !.nodes = Append(@, Undef), !.d = Append(@, me)]
                  to(x) == g1.d[x]
              IN [Add(c, g1, op.t, to(as[1]), to(as[2])) EXCEPT !.nodes[me] = [op |-> "def", ch |-> << RootOf(c, g1, op.t) >>]]
         [] op.o = "build" -> [Add(c, g, op.t, at(as[1]), at(as[2])) EXCEPT !.q[op.q] = RootOf(c, g, op.t)]
         [] OTHER -> g

ParseBad(c, st, g, e) ==
    IF e.res.k = "X" \/ ~Reliable(st, e) THEN {}
    ELSE LET root == IF e.q = 0 THEN g.d[st.h[e.h]] ELSE g.q[e.q]
             ctx == [Ctx(c, c.ins[e.i], "") EXCEPT !.nodes = g.nodes]
             s == Ev(ctx, root, 0, e.r)
         IN IF s.f >= Panics THEN If(e.res.k = "P", "result without a definition")
            ELSE If(e.res.k = s.k, "kind")
                 \cup (IF e.res.k # s.k THEN {} ELSE
                         If(e.res.o = s.o, "output") \cup If(e.res.p = s.p, "position")
                         \cup If(e.res.x = s.x, "failure index") \cup If(e.res.e = EncAll(s.e), "errors"))

OpBad(c, st, g, e) ==
    CASE ~Enabled(st, e) -> {"history"}
      [] e.o = "parse" -> ParseBad(c, st, g, e)
      [] e.o = "define" -> If((e.res.k = "-") = (st.d[st.h[e.h]].k = "no"), "definition")
      [] OTHER -> If(e.res.k = "-", "panic")

After(st, e) == IF e.hd # 0 THEN [Effect(st, e) EXCEPT !.h[e.hd] = 0] ELSE Effect(st, e)

RECURSIVE Walk(_, _, _, _)
Walk(c, st, g, k) ==
    LET last(j) == ParseBad(c, st, g, c.last[j])
        report(n, b) == IF b = {} THEN TRUE ELSE PrintT(<< "REJECT", c.id, n, ToString(b) >>)
    IN IF k > Len(c.obs)
       THEN \A j \in 1..Len(c.last) : report(Len(c.obs) + j, last(j))
       ELSE LET e == c.obs[k]
            IN /\ report(k, OpBad(c, st, g, e))
               /\ Walk(c, After(st, e), Grow(c, st, g, e), k + 1)

VARIABLE i
Init == i = 0
Next == i = 0 /\ \E j \in 1..Len(Data) : i' = j
        /\ (Walk(Data[j], DeclInit(9, 9), [nodes |-> <<>>, d |-> <<>>, q |-> [s \in 1..9 |-> 0]], 1) = TRUE)
Spec == Init /\ [][Next]_i
===============================================================================
