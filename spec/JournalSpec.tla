----------------------------- MODULE JournalSpec ----------------------------
(* The journal (dhara/journal.h): a queue on flash.  Items go in at the     *)
(* head and are taken from the tail.  From time to time, and at least once  *)
(* in every `period' items, there's a checkpoint; after loss of power,      *)
(* everything is as it was at the last one.  That includes items dequeued   *)
(* since, with one exception: if nothing has been enqueued since the        *)
(* checkpoint then what's dequeued is taken to be obsolete, and its place   *)
(* may be reused at once.                                                   *)
(* If a block fails, recovery ends with a checkpoint, also in the middle of  *)
(* a call.  What's at the head of the queue then is anyone's guess.          *)
(* Filler, which is written to reach a checkpoint or skipped on resuming,   *)
(* isn't part of the queue.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

NoItem == -1
Filler == 0
Unknown == -2

VARIABLES
    q,      \* the queue, tail first
    rt,     \* what was enqueued last: an item, Filler, or NoItem
    ck,     \* cookie
    cp,     \* the last checkpoint: [q, rt, ck, blank: is there none?]
    gone,   \* how many items of cp.q may be gone for good
    dirty,  \* changed since the last checkpoint
    run,    \* items and filler enqueued since then
    period, \* group size
    jpend   \* the call in progress: [op, id, h]

jvars == <<q, rt, ck, cp, gone, dirty, run, period, jpend>>

JIdle == [op |-> "idle", id |-> 0, h |-> 0]

Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* A new journal *)
JStart(cookie, p) ==
    /\ q' = <<>> /\ rt' = NoItem /\ ck' = cookie
    /\ cp' = [q |-> <<>>, rt |-> NoItem, ck |-> cookie, blank |-> TRUE]
    /\ gone' = 0 /\ dirty' = FALSE /\ run' = 0 /\ period' = p
    /\ jpend' = JIdle

Pushes(c) == c.op \in {"enq", "pad", "rot", "dup"}

(* The queue after call c.  For "deq", c.h is what was at the tail: if it's *)
(* filler, or what recovery has left behind (an item which is still to come *)
(* again), then the queue doesn't change. *)
PostQ(s, c, again) ==
    CASE c.op \in {"enq", "dup"} -> Append(s, c.id)
      [] c.op = "rot" -> Append(SelectSeq(s, LAMBDA x : x # c.id), c.id)
      [] c.op = "clear" -> <<>>
      [] c.op = "deq" -> IF c.h > 0 /\ ~again THEN Tail(s) ELSE s
      [] OTHER -> s

DeqOK(c, again) ==
    c.op = "deq" =>
        /\ c.h >= NoItem
        /\ c.h = NoItem => q = <<>>
        /\ c.h > 0 /\ ~again => q # <<>> /\ c.h = Head(q)

In(x, s) == \E i \in DOMAIN s : s[i] = x

PostRt(c, nq) ==
    CASE Pushes(c) -> {IF c.op = "pad" THEN Filler ELSE c.id}
      [] c.op = "clear" -> {NoItem}
      [] c.op = "deq" ->
            IF rt > 0 THEN {IF In(rt, nq) THEN rt ELSE NoItem}
            ELSE {rt, NoItem}
      [] OTHER -> {rt}

(* The call succeeds.  clean: a checkpoint was reached; rec: there was a     *)
(* recovery.                                                                *)
JReturn(c, clean, newrt, again, rec) ==
    LET nq == PostQ(q, c, again)
        nr == IF Pushes(c) THEN run + 1 ELSE run
        nk == IF c.op = "cookie" THEN c.id ELSE ck
    IN  /\ DeqOK(c, again)
        /\ newrt \in PostRt(c, nq)
        /\ q' = nq /\ rt' = newrt /\ ck' = nk
        /\ IF Pushes(c) /\ clean
           THEN /\ cp' = [q |-> nq, rt |-> newrt, ck |-> nk, blank |-> FALSE]
                /\ gone' = 0 /\ dirty' = FALSE /\ run' = 0
           ELSE IF rec
           THEN /\ cp' = [q |-> q, rt |-> Unknown, ck |-> ck, blank |-> FALSE]
                /\ gone' = 0 /\ dirty' = TRUE /\ run' = 1
           ELSE /\ cp' = cp
                /\ gone' = IF c.op = "deq" /\ ~dirty /\ nq # q THEN gone + 1
                           ELSE gone
                /\ dirty' = (dirty \/ Pushes(c) \/ c.op = "clear")
                /\ run' = nr
        /\ clean = ~dirty'
        /\ jpend' = JIdle
        /\ UNCHANGED period

JFail ==
    /\ jpend' = JIdle
    /\ UNCHANGED <<q, rt, ck, cp, gone, period, run>>
    /\ dirty' \in {dirty, TRUE}

(* Power is lost, perhaps inside call c, in which blocks may have failed.   *)
JSurvivors(c, failed) ==
    {[q |-> Drop(cp.q, i), rt |-> cp.rt, ck |-> cp.ck] : i \in 0 .. gone} \cup
    (IF failed /\ Pushes(c) THEN {[q |-> q, rt |-> Unknown, ck |-> ck]}
     ELSE {}) \cup
    (IF Pushes(c)
     THEN {[q |-> PostQ(q, c, FALSE), ck |-> ck,
            rt |-> IF c.op = "pad" THEN Filler ELSE c.id]}
     ELSE {})

(* If power is lost in the middle of recovery then some items have already  *)
(* been written again, perhaps more than once, and are at the head now;     *)
(* what was dequeued since the checkpoint may be back.  Nothing is lost.    *)
Items(s) == {s[k] : k \in DOMAIN s}

Rewritten(c, new) ==
    /\ IF Items(Drop(cp.q, gone)) \subseteq Items(new) THEN TRUE
       ELSE Items(q) \subseteq Items(new)
    /\ Items(new) \subseteq Items(q) \cup Items(cp.q) \cup {c.id}

JPowerLoss(c, nq, nrt, nck, blank, failed) ==
    \/ /\ blank
       /\ cp.blank
       /\ nq = <<>> /\ nrt = NoItem
       /\ JStart(nck, period)
    \/ /\ ~blank
       /\ \/ \E s \in JSurvivors(c, failed) :
                /\ s.q = nq
                /\ s.ck = nck
                /\ CASE s.rt > 0 -> nrt = s.rt
                     [] s.rt = Unknown -> nrt \in {Filler, NoItem} \/ In(nrt, nq)
                     [] OTHER -> nrt \in {Filler, NoItem}
          \/ /\ failed /\ Pushes(c)
             /\ Rewritten(c, nq)
             /\ nck \in {cp.ck, ck}
             /\ nrt \in {Filler, NoItem} \/ In(nrt, nq)
       /\ q' = nq /\ rt' = nrt /\ ck' = nck
       /\ cp' = [q |-> nq, rt |-> nrt, ck |-> nck, blank |-> FALSE]
       /\ gone' = 0 /\ dirty' = FALSE /\ run' = 0
       /\ jpend' = JIdle
       /\ UNCHANGED period

(* Checkpoints come regularly. *)
Regular == dirty => run < period
=============================================================================
