----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Checks recorded histories of stream operations against Stream: every    *)
(* recorded operation must be a step of Stream with the recorded result    *)
(* (C01; C11: that of operations that report locations), within what it    *)
(* allows to be requested from the source (C02), and with a number of      *)
(* tokens held that its window allows (C03).                               *)
(* One line of PPC_TRACES per history.                                     *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, IOUtils, Locations

Prop == IOEnv.PPC_PROP
Data == ndJsonDeserialize(IOEnv.PPC_TRACES)

SlotSet == 0..15
VARIABLE at   \* << history, next event >>; event 0: not begun
tvars == << svars, at >>

(* Texts of positions.                                                      *)
Off(h, i) ==
    LET start == RichPos(h.pre, 1, << 1, 1, 0 >>)
        p == IF h.t = <<>> THEN start ELSE CycPos(h.t, i, start)
    IN ToString(p[1]) \o ":" \o ToString(p[2]) \o ":" \o ToString(p[3]) \o ":" \o ToString(i)
Place(h, i) == IF h.w = "R" THEN "F:" \o Off(h, i) ELSE ToString(i)
Between(h, i, j) == IF h.w = "R" THEN "F:" \o Off(h, i) \o ".." \o Off(h, j) ELSE ToString(i) \o ".." \o ToString(j)

Slot(e) == e.s
Do(e) ==
    CASE e.o = "tok" -> Tok
      [] e.o = "eof" -> Eof
      [] e.o = "adv" -> Adv
      [] e.o = "advto" -> AdvTo(e.d)
      [] e.o = "walk" -> Walk(e.d)
      [] e.o = "idx" -> Idx
      [] e.o = "save" -> Save(Slot(e))
      [] e.o = "saveat" -> SaveAt(Slot(e), e.d)
      [] e.o = "restore" -> Restore(Slot(e))
      [] e.o = "drop" -> Drop(Slot(e))
      [] e.o = "idxat" -> IdxAt(Slot(e))
      [] e.o = "tokat" -> TokAt(Slot(e))
      [] e.o = "loc" -> Loc
      [] e.o = "locat" -> LocAt(Slot(e))
      [] e.o = "span" -> SpanTok
      [] e.o = "spanback" -> SpanBack(Slot(e))
      [] e.o = "try" -> Try
      [] e.o = "ok" -> Ok
      [] e.o = "err" -> Err
      [] OTHER -> UNCHANGED svars  \* "panic"

Expected(h, e, r) ==
    CASE e.o \in {"loc", "locat"} -> Place(h, r[2])
      [] e.o \in {"span", "spanback"} -> Between(h, r[2][1], r[2][2])
      [] OTHER -> ToString(r[2])

If(b, s) == IF b THEN {} ELSE {s}
HeldAtMost(w) == 4 * w + 64
(* What is wrong with event e, which led to cursor c1 etc.                  *)
Bad(h, e, r, c1, req1, wide1) ==
    IF e.o = "panic" THEN IF Prop = "C01" THEN {"panic " \o e.v} ELSE {}
    ELSE CASE Prop = "C01" ->
                If(e.v = Expected(h, e, r), "result, expected " \o Expected(h, e, r)) \cup
                If(e.idx = c1, "index, expected " \o ToString(c1))
           [] Prop = "C11" ->
                IF e.idx # c1 \/ e.o \notin {"loc", "locat", "span", "spanback"} THEN {}
                ELSE If(e.v = Expected(h, e, r), "location, expected " \o Expected(h, e, r))
           [] Prop = "C02" ->
                If(e.after = 0, "source asked after its end") \cup
                (IF e.idx # c1 THEN {} ELSE
                   If(e.pull <= req1, "source asked too early") \cup
                   If(~(e.o = "tok" /\ c1 = n /\ e.v # "-1"), "end of input moved"))
           [] OTHER ->
                IF e.idx # c1 THEN {}
                ELSE If(e.live <= HeldAtMost(wide1), "holds too many tokens, allowed " \o ToString(HeldAtMost(wide1)))

Init == at = << 0, 0 >> /\ StreamInit(0)
Pick == at[1] = 0 /\ \E j \in 1..Len(Data) : at' = << j, 1 >> /\
          n' = Data[j].n /\ UNCHANGED << cur, sl, att, req, far, wide, ret >>
Follow ==
    /\ at[1] > 0 /\ at[2] > 0 /\ at[2] <= Len(Data[at[1]].ev)
    /\ LET h == Data[at[1]]
           e == h.ev[at[2]]
       IN /\ Do(e)
          /\ LET b == Bad(h, e, ret', cur', req', wide')
                 ahead == e.o # "panic" /\ e.idx = cur'
             IN IF b = {} /\ ahead THEN at' = << at[1], at[2] + 1 >>
                ELSE /\ at' = << at[1], -1 >>
                     /\ IF b = {} THEN TRUE ELSE PrintT(<< "REJECT", h.id, at[2], ToString(b) >>)
Next == Pick \/ Follow
Spec == Init /\ [][Next]_tvars
=============================================================================
