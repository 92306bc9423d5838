------------------------------ MODULE JournalMC -----------------------------
(* Does the algorithm of journal.c (JournalImpl) do what JournalSpec says?  *)
(* All of a small journal's behaviour: every call in every state, losing    *)
(* power at any operation on flash, blocks failing at any.                  *)
EXTENDS JournalImpl, TLC, TLCExt, Json

CONSTANTS
    MaxCut,     \* lose power at up to this operation of a call
    MaxBad,     \* blocks which may fail
    Reserve,    \* pages left unused if they may
    Emit        \* print all transitions?

Minus2 == -2        \* for configurations, which can't have it

VARIABLES s, q, rt, ck, cp, gone, dirty, run, period, jpend, ok

J == INSTANCE JournalSpec

jvars == <<q, rt, ck, cp, gone, dirty, run, period, jpend>>

Dedup(t) ==
    LET last(i) == \A k \in i + 1 .. Len(t) : t[k] # t[i]
        ix == SelectSeq([i \in DOMAIN t |-> i], last)
    IN  [i \in DOMAIN ix |-> t[ix[i]]]

Range(t) == {t[i] : i \in DOMAIN t}

(* Forget everything that isn't needed any more, and about the call.  What   *)
(* may never be seen again is replaced by rubbish, so if it is, we'll notice: *)
(* contents of pages nothing refers to, tags of what's not between tail and   *)
(* head, and all checkpoints' headers but the last one's.                     *)
Tidy(x, ids) ==
    LET from == IF x.lcp = NoPage THEN x.ts ELSE x.fl[x.lcp].tail
        \* the head may have come round to the tail of the last checkpoint
        near(p) == \/ (p + Chip - from) % Chip < (x.head + Chip - from) % Chip
                   \/ x.lcp # NoPage /\ x.head = from
        live(g) == \/ \E i \in 0 .. U - 1 : near(g * G + i)
                   \/ x.lcp # NoPage /\ x.lcp \div G = g
        tag(m) == IF m > 0 /\ m \notin ids THEN -2 ELSE m
        tags(b) == [i \in DOMAIN b |-> tag(b[i])]
        dead == [i \in 0 .. U - 1 |-> -2]
        page(p) ==
            LET c == x.fl[p]
            IN  CASE c.k = "data" -> IF c.id \in ids THEN c ELSE Junk
                  [] c.k = "free" ->
                        IF x.fl[p - (p % G) + U].k = "cp" THEN Junk ELSE c
                  [] c.k = "dump" -> Junk
                  [] c.k = "cp"   ->
                        [k |-> "cp", ep |-> (c.ep + Epochs - x.ep) % Epochs,
                         meta |-> IF live(p \div G) THEN tags(c.meta) ELSE dead,
                         tail |-> IF p = x.lcp THEN c.tail ELSE -5,
                         bbc  |-> IF p = x.lcp THEN c.bbc ELSE 0,
                         bbl  |-> IF p = x.lcp THEN c.bbl ELSE 0,
                         ck   |-> c.ck]
                  [] OTHER -> Junk
    IN  [Rested(x) EXCEPT !.fl = [p \in Pages |-> page(p)],
            !.buf = [i \in DOMAIN @ |-> IF i < x.head % G THEN tag(@[i])
                                        ELSE Filler],
            !.ep = 0, !.log = <<>>, !.ops = 0, !.cut = 0, !.tear = FALSE,
            !.fail = 0, !.off = FALSE, !.ret = 0, !.val = 0,
            !.rcv = FALSE, !.nf = 0]

New ==
    Reset([fl |-> [p \in Pages |-> Free], bad |-> {}, hw |-> {},
           head |-> 0, tail |-> 0, ts |-> 0, root |-> 0, ep |-> 0, bbc |-> 0,
           bbl |-> 0, dirty |-> FALSE, rec |-> FALSE, enumd |-> FALSE,
           badmeta |-> FALSE, rnext |-> 0, rroot |-> 0, rmeta |-> 0,
           buf |-> EmptyBuf, ck |-> 0, lcp |-> 0, ops |-> 0, log |-> <<>>, cut |-> 0,
           rcv |-> FALSE, nf |-> 0, rf |-> {},
           fs |-> {}, er |-> [b \in Blocks |-> 0], mis |-> FALSE,
           tear |-> FALSE, fail |-> 0, off |-> FALSE, ret |-> 0, val |-> 0])

Init ==
    /\ s = New
    /\ q = <<>> /\ rt = J!NoItem /\ ck = 0
    /\ cp = [q |-> <<>>, rt |-> J!NoItem, ck |-> 0, blank |-> TRUE]
    /\ gone = 0 /\ dirty = FALSE /\ run = 0 /\ period = U /\ jpend = J!JIdle
    /\ ok = TRUE

Root(x) == IF x.root = NoPage THEN J!NoItem ELSE ItemAt(x, x.root)

(* State x is what the journal has come to after call c. *)
Came(x, c) ==
    LET it == Items(Walk(x))
        StepOK == /\ J!JReturn(c, ~x.dirty, Root(x), \E i \in DOMAIN it : it[i] = c.h,
                            x.rcv)
                  /\ q' = Dedup(it)
                  /\ \A i \in DOMAIN it : it[i] > 0
                  /\ Len(it) <= Size(x)
                  /\ ~x.rec
                  /\ Settled(x)
                  /\ J!Regular' \/ MaxBad > 0
        FailOK == /\ x.ret = ErrFull
                  /\ J!Pushes(c)
                  /\ MaxBad = 0
                  /\ Size(x) + (Ppb \div G) * U > Capacity(x)
                  /\ J!JFail
                  /\ Root(x) = rt
                  /\ Dedup(it) = q
                  /\ dirty' = x.dirty
    IN  IF x.ret = 0
        THEN IF ENABLED StepOK THEN StepOK /\ ok' = TRUE
             ELSE ok' = FALSE /\ UNCHANGED jvars
        ELSE IF ENABLED FailOK THEN FailOK /\ ok' = TRUE
             ELSE ok' = FALSE /\ UNCHANGED jvars

(* Power was lost, and that's what was found. *)
Went(x, c, failed) ==
    LET it == Items(Walk(x))
        LossOK == /\ \A i \in DOMAIN it : it[i] > 0
                  /\ Len(it) <= Size(x)
                  /\ ~x.rec /\ ~x.dirty
                  /\ J!JPowerLoss(c, Dedup(it), Root(x), 0, x.ret # 0, failed)
    IN  IF ENABLED LossOK THEN LossOK /\ ok' = TRUE
        ELSE ok' = FALSE /\ UNCHANGED jvars

Calls(x) ==
    LET w == Walk(x)
        ids == Range(q) \cup Range(cp.q)
        new == CHOOSE i \in 1 .. 2 * Chip :
                i \notin ids /\ \A k \in 1 .. 2 * Chip : k \notin ids => i <= k
        pk == Peek(x)
        h == IF pk.val = NoPage THEN J!NoItem ELSE ItemAt(pk, pk.val)
        id == IF pk.val = NoPage THEN 0 ELSE Live(w, pk.val)
    IN  {[op |-> "enq", id |-> new, h |-> 0, src |-> 0],
         [op |-> "pad", id |-> 0, h |-> 0, src |-> 0],
         [op |-> "deq", id |-> 0, h |-> h, src |-> 0],
         [op |-> "clear", id |-> 0, h |-> 0, src |-> 0]} \cup
        (IF id > 0 THEN {[op |-> "rot", id |-> id, h |-> 0, src |-> pk.val]}
         ELSE {})

Perform(x, c) ==
    CASE c.op = "enq" -> Push(x, "data", c.id, c.id, 9)
      [] c.op = "pad" -> Push(x, "none", 0, Filler, 9)
      [] c.op = "rot" -> Push(Peek(x), "copy", c.src, c.id, 9)
      [] c.op = "deq" -> Dequeue(Peek(x))
      [] c.op = "clear" -> Clear(x)

(* Items renamed in order of appearance *)
View ==
    LET o == LET t == cp.q \o q
                 first(i) == \A k \in 1 .. i - 1 : t[k] # t[i]
                 ix == SelectSeq([i \in DOMAIN t |-> i], first)
             IN  [i \in DOMAIN ix |-> t[ix[i]]]
        n(m) == IF m > 0 THEN CHOOSE i \in DOMAIN o : o[i] = m ELSE m
        t(b) == [i \in DOMAIN b |-> n(b[i])]
        page(c) == CASE c.k = "data" -> [c EXCEPT !.id = n(@)]
                     [] c.k \in {"cp", "dump"} -> [c EXCEPT !.meta = t(@)]
                     [] OTHER -> c
    IN  <<[s EXCEPT !.fl = [p \in Pages |-> page(@[p])], !.buf = t(@)],
          t(q), n(rt), [cp EXCEPT !.q = t(@), !.rt = n(@)], gone, dirty, run, ok>>

(* For lib/scripts.py *)
Tell(op, cut, tear, fail, log) ==
    Emit => PrintT(ToJson([a |-> TLCFP(View), b |-> TLCFP(View'), op |-> op,
                           cut |-> cut, tear |-> tear, fail |-> fail,
                           log |-> log]))

Room == MaxBad = 0 \/ Size(s) + Reserve < Capacity(s)

Does(c, cut, tear, fail) ==
    LET arg == [op |-> c.op, id |-> c.id, h |-> c.h]
        x == Perform([s EXCEPT !.cut = cut, !.tear = tear, !.fail = fail], c)
        y == Resume(x)
    IN  /\ (cut > 0) = x.off
        /\ fail > 0 => /\ x.ops >= fail
                       /\ x.hw # s.hw
        /\ IF x.off
           THEN Went(y, arg, x.nf > 0) /\ s' = Tidy(y, Range(q') \cup Range(cp'.q))
           ELSE Came(x, arg) /\ s' = Tidy(x, Range(q') \cup Range(cp'.q))
        /\ Tell(c.op, cut, tear, fail, x.log)

Next ==
    \/ \E c \in Calls(s) :
        /\ J!Pushes(c) => Room
        /\ \/ Does(c, 0, FALSE, 0)
           \/ /\ J!Pushes(c)
              /\ \E cut \in 0 .. MaxCut, tear \in BOOLEAN,
                    fail \in 0 .. (IF Cardinality(s.hw \cup s.bad) < MaxBad
                                   THEN 12 ELSE 0) :
                    /\ cut > 0 \/ fail > 0
                    /\ tear => cut > 0
                    /\ cut > 0 /\ fail > 0 => fail < cut
                    /\ Does(c, cut, tear, fail)
    \/ LET y == Resume(s)
       IN  /\ Wear => ~s.dirty
           /\ Went(y, J!JIdle, FALSE)
           /\ s' = Tidy(y, Range(q') \cup Range(cp'.q))
           /\ Tell("up", 0, FALSE, 0, <<>>)

vars == <<s, q, rt, ck, cp, gone, dirty, run, period, jpend, ok>>

Spec == Init /\ [][Next]_vars

Good == ok /\ ~s.mis
=============================================================================
