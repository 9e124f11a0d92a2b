------------------------------- MODULE MCCalls -------------------------------
(* The calls the machine makes are the ones Calls allows (C22).             *)
EXTENDS MCMachine, Calls
VARIABLES log,   \* calls made so far, in the order they began
          open   \* those under way, innermost last
Depth(s) == Cardinality({ j \in 1..Len(s) : s[j].kd = "node" })
Log ==
    IF Depth(stk') > Depth(stk)
    THEN LET f == stk'[Len(stk')]
         IN /\ log' = Append(log, [n |-> f.n, i |-> f.i, r |-> f.r, k |-> "?", p |-> f.i,
                                   u |-> IF open = <<>> THEN 0 ELSE open[Len(open)]])
            /\ open' = Append(open, Len(log) + 1)
    ELSE IF Depth(stk') < Depth(stk)
    THEN LET v == open[Len(open)]
         IN /\ log' = [log EXCEPT ![v].k = ret'.k, ![v].p = pos']
            /\ open' = SubSeq(open, 1, Len(open) - 1)
    ELSE UNCHANGED << log, open >>
CInit == Init /\ log = <<>> /\ open = <<>>
CNext == Next /\ Log
CSpec == CInit /\ [][CNext]_<< mvars, todo, log, open >>
ICalls ==
    Running /\ Finished =>
      /\ open = <<>>
      /\ \A v \in 1..Len(log) : CallsBad(c.nodes, log, v) = {}
      /\ RootsBad(log, c.root, 1) = {}
=============================================================================
