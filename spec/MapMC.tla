-------------------------------- MODULE MapMC -------------------------------
(* Does the algorithm of map.c and journal.c (MapImpl) do what MapSpec says? *)
(* All of a small map's behaviour: every call in every state, losing power   *)
(* at any operation on flash, blocks failing at any.                         *)
EXTENDS MapImpl, TLC, TLCExt, Json

CONSTANTS
    MaxCut,     \* lose power at up to this operation of a call
    MaxFail,    \* a block fails at up to this operation
    MaxBad,     \* blocks which may fail
    Unreadable, \* may pages be unreadable for the length of a call?
    Emit        \* print all transitions?

VARIABLES s, cur, pts, wr, win, pend, ok

M == INSTANCE MapSpec

K == 2^Depth        \* sector number i - 1 is position i of cur

Range(t) == {t[i] : i \in DOMAIN t}

(****************************************************************************)
(* Forgetting what isn't needed any more.  What may never be seen again is   *)
(* replaced by rubbish, so if it is, we'll notice.                           *)

Poison == -5
NoData == [i \in Levels |-> Poison]

(* Pages which can be reached from page p, entered at depth d: page, depth *)
RECURSIVE Reach(_, _, _)
Reach(x, p, d) ==
    LET m == ReadMeta(x, p)
    IN  IF p < 0 THEN {}
        ELSE IF m = Lost \/ m.id = NoSector THEN {<<p, d>>}
        ELSE {<<p, d>>} \cup
             UNION {Reach(x, m.alt[i], i + 1) :
                        i \in {i \in Levels : i >= d /\ m.alt[i] >= 0}}

CpRoot(x) == IF x.lcp = NoPage THEN NoPage ELSE x.lcp - 1

Tidy(x) ==
    LET from == IF x.lcp = NoPage THEN x.ts ELSE x.fl[x.lcp].tail
        \* the head may have come round to the tail of the last checkpoint
        near(p) == \/ (p + Chip - from) % Chip < (x.head + Chip - from) % Chip
                   \/ x.lcp # NoPage /\ x.head = from
        reach == Reach(x, x.root, 0) \cup
                 (IF x.lcp = NoPage THEN {} ELSE Reach(x, CpRoot(x), 0))
        used == {r[1] : r \in reach}
        entry(p) == LET ds == {r[2] : r \in {r \in reach : r[1] = p}}
                    IN  CHOOSE d \in ds : \A e \in ds : d <= e
        \* metadata m of page p
        tidy(p, m) ==
            IF m = Lost \/ m.id = NoSector THEN m
            ELSE IF p \in used
                 THEN LET d == entry(p)
                      IN  [m EXCEPT !.alt = [i \in Levels |->
                                IF i < d THEN Poison ELSE @[i]]]
            ELSE IF near(p) THEN [id |-> 0, alt |-> NoData]
            ELSE Lost
        page(p) ==
            LET c == x.fl[p]
                g == p - (p % G)
            IN  CASE c.k = "data" -> IF p \in used THEN c ELSE Junk
                  [] c.k = "free" -> IF x.fl[g + U].k = "cp" THEN Junk ELSE c
                  [] c.k = "cp"   ->
                        [k |-> "cp", ep |-> (c.ep + Epochs - x.ep) % Epochs,
                         meta |-> [i \in 0 .. U - 1 |-> tidy(g + i, c.meta[i])],
                         tail |-> IF p = x.lcp THEN c.tail ELSE Poison,
                         bbc  |-> IF p = x.lcp THEN c.bbc ELSE 0,
                         bbl  |-> IF p = x.lcp THEN c.bbl ELSE 0,
                         ck   |-> IF p = x.lcp THEN c.ck ELSE 0]
                  [] OTHER -> Junk
        h == x.head - (x.head % G)
    IN  [Rested(x) EXCEPT !.fl = [p \in Pages |-> page(p)],
            !.buf = [i \in DOMAIN @ |-> IF i < x.head % G THEN tidy(h + i, @[i])
                                        ELSE Filler],
            !.ep = 0, !.ck = 0, !.log = <<>>, !.ops = 0, !.cut = 0,
            !.tear = FALSE, !.fail = 0, !.off = FALSE, !.ret = 0, !.val = 0,
            !.rcv = FALSE, !.nf = 0, !.rf = {}]

(****************************************************************************)

New ==
    Reset([fl |-> [p \in Pages |-> Free], bad |-> {}, hw |-> {},
           head |-> 0, tail |-> 0, ts |-> 0, root |-> 0, ep |-> 0, bbc |-> 0,
           bbl |-> 0, dirty |-> FALSE, rec |-> FALSE, enumd |-> FALSE,
           badmeta |-> FALSE, rnext |-> 0, rroot |-> 0, rmeta |-> 0,
           buf |-> EmptyBuf, ck |-> 0, lcp |-> 0, ops |-> 0, log |-> <<>>,
           cut |-> 0, rcv |-> FALSE, nf |-> 0, cnt |-> 0, rf |-> {},
           fs |-> {}, er |-> [b \in Blocks |-> 0], mis |-> FALSE,
           tear |-> FALSE, fail |-> 0, off |-> FALSE, ret |-> 0, val |-> 0])

Empty == [i \in 1 .. K |-> M!None]

Init ==
    /\ s = New
    /\ cur = Empty /\ pts = <<[st |-> Empty, n |-> 0]>>
    /\ wr = 0 /\ win = U - 1 /\ pend = M!Idle
    /\ ok = TRUE

Contents(x) == LET y == [x EXCEPT !.rf = {}] IN [i \in 1 .. K |-> Read(y, i - 1)]

(* State x is what the map has come to after call c. *)
Came(x, c) ==
    LET a == MapCapacity(s)     \* a block failing makes it less
        b == MapCapacity(x)
        Fine == /\ c.op = "sync" => ~x.dirty
                /\ M!Adds(cur, c) => M!Count(cur) < (IF a > b THEN a ELSE b)
                /\ M!Finish(c, TRUE, ~x.dirty)
                /\ Contents(x) = cur'
                /\ x.cnt = M!Count(cur')
                /\ ~x.rec
                /\ Settled(x)
        Full == /\ x.ret = ErrMapFull
                /\ M!Adds(cur, c)
                /\ M!Count(cur) >= (IF a < b THEN a ELSE b)
                /\ M!Finish(c, FALSE, ~x.dirty)
                /\ Contents(x) = cur'
                /\ x.cnt = M!Count(cur')
                /\ ~x.rec
        Failed == /\ x.ret = ErrRead
                /\ x.rf # {}
                /\ M!Finish(c, FALSE, ~x.dirty)
                /\ Contents(x) = cur'
                /\ x.cnt = M!Count(cur')
                /\ ~x.rec
    IN  IF x.ret = 0
        THEN IF ENABLED Fine THEN Fine /\ ok' = TRUE
             ELSE ok' = FALSE /\ UNCHANGED <<cur, pts, wr, win, pend>>
        ELSE IF ENABLED Full THEN Full /\ ok' = TRUE
        ELSE IF ENABLED Failed THEN Failed /\ ok' = TRUE
             ELSE ok' = FALSE /\ UNCHANGED <<cur, pts, wr, win, pend>>

(* Power was lost during call c, and that's what was found. *)
Went(x, c) ==
    LET m == Contents(x)
        Loss == /\ m \in M!SurvivorsOf(c)
                /\ x.cnt = M!Count(m)
                /\ ~x.rec /\ ~x.dirty
                /\ x.ret # 0 => M!IsEmpty(m)
                /\ M!PowerLossIn(c, m)
    IN  IF ENABLED Loss THEN Loss /\ ok' = TRUE
        ELSE ok' = FALSE /\ UNCHANGED <<cur, pts, wr, win, pend>>

Call(op, a, b, d) == [op |-> op, s |-> a, s2 |-> b, d |-> d]

Calls ==
    LET used == UNION {Range(pts[i].st) : i \in DOMAIN pts}
        new == CHOOSE d \in 1 .. 2 * Chip :
                d \notin used /\ \A e \in 1 .. 2 * Chip : e \notin used => d <= e
    IN  {Call("w", i, 1, new) : i \in 1 .. K} \cup
        {Call("t", i, 1, 0) : i \in 1 .. K} \cup
        {Call("cs", i, j, 0) : i \in 1 .. K, j \in 1 .. K} \cup
        {Call(op, 1, 1, 0) : op \in {"gc", "sync", "clear"}}

Perform(x, c) ==
    CASE c.op = "w" -> MWrite(x, "data", c.d, c.s - 1)
      [] c.op = "t" -> Trim(x, c.s - 1)
      [] c.op = "cs" -> CopySector(x, c.s2 - 1, c.s - 1)
      [] c.op = "gc" -> Gc(x)
      [] c.op = "sync" -> Sync(x)
      [] c.op = "clear" -> ClearMap(x)

(****************************************************************************)
(* What distinguishes states: not what data is called (it's numbered in      *)
(* order of appearance), and not how sectors are called if all their numbers *)
(* are changed in the same bits.                                             *)

RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
             ELSE 2 * Xor(a \div 2, b \div 2) + ((a + b) % 2)

(* Call the sector at the root number 0. *)
Mask(x) ==
    LET id(p) == IF p < 0 THEN -1 ELSE ReadMeta(x, p).id
        a == id(x.root)
        b == id(CpRoot(x))
    IN  IF a >= 0 THEN a ELSE IF b >= 0 THEN b ELSE 0

RECURSIVE Concat(_, _)
Concat(t, i) == IF i > Len(t) THEN <<>> ELSE t[i].st \o Concat(t, i + 1)

View ==
    LET k == Mask(s)
        perm(m) == [i \in 1 .. K |-> m[Xor(i - 1, k) + 1]]
        ps == [i \in DOMAIN pts |-> [st |-> perm(pts[i].st), n |-> pts[i].n - wr]]
        o == LET t == Concat(ps, 1)
                 first(i) == t[i] > 0 /\ \A j \in 1 .. i - 1 : t[j] # t[i]
                 ix == SelectSeq([i \in DOMAIN t |-> i], first)
             IN  [i \in DOMAIN ix |-> t[ix[i]]]
        n(d) == IF d \in Range(o) THEN CHOOSE i \in DOMAIN o : o[i] = d
                ELSE IF d > 0 THEN 0 ELSE d
        mt(m) == IF m.id >= 0 /\ (\E i \in Levels : m.alt[i] # Poison)
                 THEN [m EXCEPT !.id = Xor(@, k)] ELSE m
        mts(b) == [i \in DOMAIN b |-> mt(b[i])]
        page(c) == CASE c.k = "data" -> [c EXCEPT !.id = n(@)]
                     [] c.k = "cp" -> [c EXCEPT !.meta = mts(@)]
                     [] OTHER -> c
    IN  <<[s EXCEPT !.fl = [p \in Pages |-> page(@[p])], !.buf = mts(@)],
          [i \in DOMAIN ps |-> [st |-> [j \in 1 .. K |-> n(ps[i].st[j])],
                                n |-> ps[i].n]], ok>>

(* For lib/scripts.py *)
Tell(c, cut, tear, fail, log) ==
    Emit => PrintT(ToJson([a |-> TLCFP(View), b |-> TLCFP(View'), op |-> c.op,
                           s |-> Xor(c.s - 1, Mask(s)),
                           s2 |-> Xor(c.s2 - 1, Mask(s)),
                           x |-> Xor(Mask(s), Mask(s')),
                           cut |-> cut, tear |-> tear, fail |-> fail,
                           log |-> log]))

Writes(c) == c.op # "clear"

Does(c, cut, tear, fail) ==
    LET x == Perform([s EXCEPT !.cut = cut, !.tear = tear, !.fail = fail], c)
        y == MapResume(x)
    IN  /\ (cut > 0) = x.off
        /\ fail > 0 => /\ x.ops >= fail
                       /\ x.hw # s.hw
        /\ IF x.off THEN Went(y, c) /\ s' = Tidy(y)
           ELSE Came(x, c) /\ s' = Tidy(x)
        /\ Tell(c, cut, tear, fail, x.log)

(* Page p can't be read for the length of the call, which fails for that. *)
CantRead(c, p) ==
    LET x == Perform([s EXCEPT !.rf = {p}], c)
    IN  /\ x.ret = ErrRead
        /\ Came(x, c) /\ s' = Tidy([x EXCEPT !.rf = {}])
        /\ Tell(c, 0, FALSE, -1 - p, x.log)

Next ==
    \/ \E c \in Calls :
        \/ Does(c, 0, FALSE, 0)
        \/ /\ Writes(c)
           /\ \E cut \in 0 .. MaxCut, tear \in BOOLEAN,
                 fail \in 0 .. (IF Cardinality(s.hw \cup s.bad) < MaxBad
                                THEN MaxFail ELSE 0) :
                /\ cut > 0 \/ fail > 0
                /\ tear => cut > 0
                /\ cut > 0 /\ fail > 0 => fail < cut
                /\ Does(c, cut, tear, fail)
    \/ /\ Unreadable
       /\ \E c \in Calls, p \in Pages :
            /\ s.fl[p].k \in {"cp", "data"}
            /\ CantRead(c, p)
    \/ LET y == MapResume(s)
       IN  /\ Wear => ~s.dirty
           /\ Went(y, M!Idle)
           /\ s' = Tidy(y)
           /\ Tell(Call("up", 1, 1, 0), 0, FALSE, 0, <<>>)

vars == <<s, cur, pts, wr, win, pend, ok>>

Spec == Init /\ [][Next]_vars

Good == ok /\ ~s.mis
=============================================================================
