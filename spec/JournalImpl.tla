----------------------------- MODULE JournalImpl ----------------------------
(* The algorithm of dhara/journal.c, down to the operations on flash, with  *)
(* its user: a queue which follows the recovery protocol of journal.h (as   *)
(* harness/jdrv.c does).  It's a transcription: each C function is an       *)
(* operator from states to states.                                          *)
(*                                                                          *)
(* A state s is a record.  What's on the chip:                              *)
(*   fl     contents of each page                                           *)
(*   bad    blocks marked bad           hw   blocks which have failed       *)
(* what the journal has in RAM:                                             *)
(*   head tail ts(tail_sync) root ep(epoch) bbc bbl                         *)
(*   dirty rec enumd badmeta            flags                               *)
(*   rnext rroot rmeta                  recover_next, _root, _meta          *)
(*   buf    metadata in the page buffer    ck  cookie there                 *)
(*   lcp    where the last checkpoint is (not in the code)                  *)
(* and what's going on in the current call:                                 *)
(*   ops    flash operations so far     log  what they were                 *)
(*   cut    power fails at this one     tear it's left half done            *)
(*   fail   the block fails at this one                                     *)
(*   off    power has failed              rf   pages which can't be read    *)
(*   ret    0, or the error             val  what else is returned          *)
(*   nf     operations that failed      rcv  was there a recovery?          *)
(* and how the chip is treated (see NandSpec; the code knows nothing of it):  *)
(*   fs     blocks which have failed since the restart                      *)
(*   er     how often each block was erased, if Wear                        *)
(*   mis    was the chip ever asked for something it can't do?              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    NB,         \* blocks
    LB,         \* log2 of pages per block
    PPC,        \* log2 of pages per checkpoint group
    Retries,    \* DHARA_MAX_RETRIES
    Epochs,     \* how many epochs can be told apart
    FullFail,   \* do failed programs leave what was programmed?
    Whole,      \* is it all or nothing with checkpoints?
    Wear,       \* count erasures?
    Filler,     \* metadata of pages without any
    Unread      \* what's read where there's no metadata

ErrBad == 1  ErrTooBad == 3  ErrRecover == 4  ErrFull == 5  ErrRead == 2
ErrOff == 99
NoPage == -1

Ppb == 2^LB
G   == 2^PPC                    \* pages in a group
U   == G - 1                    \* user pages in a group
Chip == NB * Ppb
Pages == 0 .. Chip - 1
Blocks == 0 .. NB - 1

Free == [k |-> "free"]
Torn == [k |-> "torn"]
Junk == [k |-> "junk"]
Data(id) == [k |-> "data", id |-> id]

Blk(p)        == p \div Ppb
Aligned(p)    == p % Ppb = 0
GAligned(p)   == p % G = 0
SameBlk(a, b) == a \div Ppb = b \div Ppb
SameGrp(a, b) == a \div G = b \div G
NextBlk(b)    == IF b + 1 >= NB THEN 0 ELSE b + 1
NextUpage(p)  == LET a == p + 1
                     c == IF GAligned(a + 1) THEN a + 1 ELSE a
                 IN  IF c >= Chip THEN 0 ELSE c
NoCookie == 0
EmptyBuf == [i \in 0 .. U - 1 |-> Filler]

Ok(s)     == [s EXCEPT !.ret = 0]
Err(s, e) == [s EXCEPT !.ret = e]

(****************************************************************************)
(* Flash                                                                    *)

Log(s, o, a) == [s EXCEPT !.ops = @ + 1, !.log = Append(@, <<o, a>>)]

Fails(s, b) == b \in s.hw \/ s.fail = s.ops + 1

(* For power lost while checkpoints are being written see KNOWN_FINDINGS.  *)
IsWhole(p) == Whole /\ GAligned(p + 1)

Wrong(s, cond) == [s EXCEPT !.mis = @ \/ cond]

Unusable(s, b) == b \in s.bad \cup s.fs

Prog(s0, p, c) ==
    LET b == Blk(p)
        s == IF s0.off THEN s0
             ELSE Wrong(s0, \/ Unusable(s0, b)
                            \/ \E x \in p .. b * Ppb + Ppb - 1 : s0.fl[x] # Free)
    IN
    IF s.off THEN Err(s, ErrOff)
    ELSE IF s.cut = s.ops + 1
         THEN [Err(s, ErrOff) EXCEPT !.off = TRUE,
               !.fl = IF s.tear /\ ~IsWhole(p) THEN [@ EXCEPT ![p] = Torn] ELSE @]
    ELSE IF Fails(s, Blk(p))
         THEN [Err(Log(s, "P", p), ErrBad) EXCEPT !.nf = @ + 1, !.hw = @ \cup {b},
               !.fs = @ \cup {b},
               !.fl = [@ EXCEPT ![p] = IF FullFail /\ @ = Free THEN c
                                       ELSE IF IsWhole(p) THEN @ ELSE Torn]]
    ELSE [Ok(Log(s, "P", p)) EXCEPT
               !.fl = [@ EXCEPT ![p] = IF @ = Free THEN c ELSE Junk]]

(* Good blocks have been erased equally often, give or take one. *)
Level(s) == \A a, b \in Blocks \ (s.bad \cup s.fs) : s.er[a] - s.er[b] <= 1

Erase(s0, b) ==
    LET s == IF s0.off THEN s0
             ELSE LET x == [s0 EXCEPT !.er[b] = IF Wear THEN @ + 1 ELSE @]
                  IN  Wrong(x, Unusable(s0, b) \/ ~Level(x))
        all(c) == [p \in Pages |-> IF Blk(p) # b THEN s.fl[p]
                                   ELSE IF IsWhole(p) THEN Free ELSE c]
    IN  IF s.off THEN Err(s, ErrOff)
        ELSE IF s.cut = s.ops + 1
             THEN [Err(s, ErrOff) EXCEPT !.off = TRUE,
                   !.fl = IF s.tear THEN all(Torn) ELSE @]
        ELSE IF Fails(s, b)
             THEN [Err(Log(s, "E", b), ErrBad) EXCEPT !.nf = @ + 1, !.hw = @ \cup {b},
               !.fs = @ \cup {b},
                   !.fl = all(Torn)]
        ELSE [Ok(Log(s, "E", b)) EXCEPT !.fl = all(Free)]

(* What's in a block marked bad must never be needed again. *)
Gone(s, b) ==
    [s EXCEPT !.bad = @ \cup {b},
              !.fl = [p \in Pages |-> IF Blk(p) = b THEN Junk ELSE s.fl[p]]]

MarkBad(s0, b) ==
    LET s == IF s0.off THEN s0 ELSE Wrong(s0, b \notin s0.fs \/ b \in s0.bad)
    IN
    IF s.off THEN s
    ELSE IF s.cut = s.ops + 1
         THEN IF s.tear THEN Gone([s EXCEPT !.off = TRUE], b)
              ELSE [s EXCEPT !.off = TRUE]
    ELSE Gone(Log(s, "B", b), b)

(* A call has succeeded. *)
Settled(s) == s.fs \subseteq s.bad

(* Forget what doesn't matter any more. *)
Rested(s) ==
    LET good == Blocks \ s.bad
        least == CHOOSE n \in {s.er[b] : b \in good} :
                    \A b \in good : n <= s.er[b]
    IN  [s EXCEPT !.fs = @ \ s.bad,
                  !.er = [b \in Blocks |-> IF b \in good THEN @[b] - least
                                           ELSE 0]]

IsBad(s, b) == b \in s.bad
IsFree(s, p) == s.fl[p].k = "free"

(* dhara_nand_copy *)
Copy(s, src, dst) == IF src \in s.rf THEN Err(s, ErrRead)
                     ELSE Prog(s, dst, s.fl[src])

(* Is there a checkpoint on this page? *)
Magic(s, p) == s.fl[p].k = "cp"

(****************************************************************************)
(* Starting up                                                              *)

ClearRecovery(s) ==
    [s EXCEPT !.rnext = NoPage, !.rroot = NoPage, !.rmeta = NoPage,
              !.badmeta = FALSE, !.rec = FALSE, !.enumd = FALSE]

Reset(s) ==
    ClearRecovery([s EXCEPT !.ep = 0, !.bbl = NB \div 64, !.bbc = 0,
        !.dirty = FALSE, !.head = 0, !.tail = 0, !.ts = 0, !.root = NoPage,
        !.buf = EmptyBuf, !.ck = NoCookie, !.lcp = NoPage])

RollStats(s) == [s EXCEPT !.bbl = s.bbc, !.bbc = 0, !.ep = (@ + 1) % Epochs]

(* The first block from b on with a checkpoint in the first place for one,  *)
(* or -1 *)
FindCheckblock(s, b) ==
    LET good(x) == /\ ~IsBad(s, x)
                   /\ Magic(s, x * Ppb + G - 1)
        c == {x \in b .. NB - 1 : x < b + Retries /\ good(x)}
    IN  IF c = {} THEN -1 ELSE CHOOSE x \in c : \A y \in c : x <= y

EpochAt(s, b) == s.fl[b * Ppb + G - 1].ep

RECURSIVE LastCheckblock(_, _, _, _)
LastCheckblock(s, first, low, high) ==
    IF low > high THEN first
    ELSE LET mid == (low + high) \div 2
             f   == FindCheckblock(s, mid)
         IN  IF f < 0 \/ (f >= 0 /\ EpochAt(s, f) # s.ep)
             THEN IF mid = 0 THEN first
                  ELSE LastCheckblock(s, first, low, mid - 1)
             ELSE LET nf == IF f + 1 >= NB THEN -1
                            ELSE FindCheckblock(s, f + 1)
                  IN  IF nf < 0 \/ (nf >= 0 /\ EpochAt(s, nf) # s.ep) THEN f
                      ELSE LastCheckblock(s, first, nf, high)

CpFree(s, p) == \A i \in 0 .. G - 1 : IsFree(s, p + i)

RECURSIVE LastGroup(_, _, _, _)
LastGroup(s, b, low, high) ==
    IF low > high THEN b * Ppb
    ELSE LET mid == (low + high) \div 2
             p   == b * Ppb + mid * G
         IN  IF CpFree(s, p) THEN LastGroup(s, b, low, mid - 1)
             ELSE IF mid + 1 >= Ppb \div G \/ CpFree(s, p + G) THEN p
             ELSE LastGroup(s, b, mid + 1, high)

(* The checkpoint page to go by, or -1 *)
FindRoot(s, start) ==
    LET b == Blk(start)
        c == {i \in 0 .. (start % Ppb) \div G :
                LET p == b * Ppb + (i + 1) * G - 1
                IN  Magic(s, p) /\ s.fl[p].ep = s.ep}
    IN  IF c = {} THEN -1
        ELSE b * Ppb + ((CHOOSE x \in c : \A y \in c : x >= y) + 1) * G - 1

RECURSIVE FindHead(_)
FindHead(s) ==
    LET first == s.head - (s.head % G)
        n == CHOOSE n \in 0 .. G :
                /\ \A i \in 0 .. n - 1 : IsFree(s, first + G - i - 1)
                /\ n = G \/ ~IsFree(s, first + G - n - 1)
        h == IF first + G >= Chip THEN 0 ELSE first + G
        s1 == [s EXCEPT !.head = h]
        s2 == IF first + G >= Chip THEN RollStats(s1) ELSE s1
    IN  IF n > 1 THEN [s EXCEPT !.head = first + G - n]
        ELSE IF Aligned(h)
             THEN IF SameBlk(h, s2.tail)
                  THEN [s2 EXCEPT !.tail = NextBlk(Blk(@)) * Ppb]
                  ELSE s2
        ELSE FindHead(s2)

Resume(s0) ==
    LET s == [Reset(s0) EXCEPT !.fs = {}]
        first == FindCheckblock(s, 0)
        s1 == [s EXCEPT !.ep = EpochAt(s, first)]
        last == LastCheckblock(s1, first, first, NB - 1)
        group == LastGroup(s1, last, 0, (Ppb \div G) - 1)
        r == FindRoot(s1, group)
        c == s.fl[r]
        s2 == FindHead([s1 EXCEPT !.root = r - 1, !.tail = c.tail,
                          !.bbc = c.bbc, !.bbl = c.bbl, !.head = group,
                          !.ck = c.ck, !.lcp = r])
    IN  IF first < 0 THEN Err(s, ErrTooBad)
        ELSE IF r < 0 THEN Err(s, ErrTooBad)
        ELSE Ok(ClearRecovery([s2 EXCEPT !.dirty = FALSE, !.ts = s2.tail,
                                         !.buf = EmptyBuf]))

(****************************************************************************)
(* Looking                                                                  *)

Size(s) ==
    LET pages(p) == p - p \div G
        wrapped == IF s.head < s.ts THEN Chip - Chip \div G ELSE 0
    IN  pages(s.head) + wrapped - pages(s.ts)

Capacity(s) ==
    LET mb == IF s.bbl > s.bbc THEN s.bbl ELSE s.bbc
    IN  (NB - mb - 1) * (Ppb \div G) * U

(* The metadata of page p *)
ReadMeta(s, p) ==
    LET i == p % G
        from(q) == LET c == s.fl[q]
                   IN  IF q \in s.rf THEN Unread
                       ELSE IF c.k \in {"cp", "dump"} THEN c.meta[i]
                       ELSE IF c.k = "free" THEN Filler ELSE Unread
    IN  IF i >= U THEN Unread
        ELSE IF SameGrp(p, s.head) THEN s.buf[i]
        ELSE IF s.rmeta # NoPage /\ SameGrp(p, s.rroot) THEN from(s.rmeta)
        ELSE from(p - i + U)

(* The item on page p, whose contents match its tag *)
ItemAt(s, p) ==
    LET m == ReadMeta(s, p)
    IN  IF m <= 0 THEN m    \* Filler or Unread
        ELSE IF s.fl[p].k = "data" /\ s.fl[p].id = m THEN m ELSE -4

RECURSIVE SkipBad(_, _, _)
SkipBad(s, b, i) ==     \* the loop in dhara_journal_peek
    IF i = Retries THEN [s EXCEPT !.val = s.tail]
    ELSE IF b = Blk(s.head) \/ ~IsBad(s, b)
         THEN LET s1 == [s EXCEPT !.tail = b * Ppb]
              IN  IF s1.tail = s1.head
                  THEN [s1 EXCEPT !.root = NoPage, !.val = NoPage]
                  ELSE [s1 EXCEPT !.val = s1.tail]
    ELSE SkipBad(s, NextBlk(b), i + 1)

Peek(s) ==
    IF s.head = s.tail THEN [s EXCEPT !.val = NoPage]
    ELSE LET s1 == IF /\ ~Aligned(s.tail)
                      /\ ~SameBlk(s.tail, s.head)
                      /\ IsBad(s, Blk(s.tail))
                   THEN [s EXCEPT !.tail = NextBlk(Blk(@)) * Ppb] ELSE s
         IN  IF Aligned(s1.tail) THEN SkipBad(s1, Blk(s1.tail), 0)
             ELSE [s1 EXCEPT !.val = s1.tail]

Wrap(a, b) == IF a >= b THEN a - b ELSE a

Dequeue(s) ==
    IF s.head = s.tail THEN s
    ELSE LET t  == NextUpage(s.tail)
             s1 == [s EXCEPT !.tail = t,
                             !.ts = IF s.dirty \/ s.rec THEN @ ELSE t]
             raw == Wrap(s.head + Chip - t, Chip)
             \* 32-bit arithmetic: without a root it's some huge number
             off == IF s.root = NoPage THEN Wrap(s.head + Chip + 1, Chip)
                    ELSE Wrap(s.head + Chip - s.root, Chip)
         IN  IF off > raw THEN [s1 EXCEPT !.root = NoPage] ELSE s1

(* Everything in the queue: pages and items; an item of -9 if there's no end *)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(s, acc, n) ==
    LET s1 == Peek(s)
        p  == s1.val
        id == ItemAt(s1, p)
    IN  IF p = NoPage THEN acc
        ELSE IF n = 0 THEN Append(acc, <<p, -9>>)
        ELSE IF id < 0 THEN Append(acc, <<p, id>>)
        ELSE WalkFrom(Dequeue(s1),
                      IF id = Filler THEN acc ELSE Append(acc, <<p, id>>),
                      n - 1)
Walk(s) == WalkFrom(s, <<>>, 2 * Chip)
Items(w) == [i \in DOMAIN w |-> w[i][2]]

(* The item on page p, if that's in the queue w and not superseded there *)
Live(w, p) ==
    LET c == {i \in DOMAIN w : /\ w[i][1] = p
                               /\ \A k \in i + 1 .. Len(w) : w[k][2] # w[i][2]}
    IN  IF c = {} THEN 0 ELSE w[CHOOSE i \in c : TRUE][2]

(****************************************************************************)
(* Writing                                                                  *)

Clear(s) == [s EXCEPT !.tail = s.head, !.root = NoPage, !.dirty = TRUE,
                      !.buf = EmptyBuf]

SkipBlock(s) ==
    LET next == NextBlk(Blk(s.head))
        s1 == [s EXCEPT !.bbc = @ + 1, !.head = next * Ppb]
    IN  IF Blk(s.ts) = next THEN Err(s, ErrFull)
        ELSE Ok(IF s1.head = 0 THEN RollStats(s1) ELSE s1)

RECURSIVE PrepareHead(_, _)
PrepareHead(s, i) ==
    LET next == NextUpage(s.head)
        s1   == [s EXCEPT !.dirty = TRUE]
        s2   == SkipBlock(s1)
    IN  IF i = Retries THEN Err(s, ErrTooBad)
        ELSE IF SameBlk(next, s.ts) /\ ~SameBlk(next, s.head)
             THEN Err(s, ErrFull)
        ELSE IF ~Aligned(s.head) THEN Ok(s1)
        ELSE IF ~IsBad(s, Blk(s.head)) THEN Erase(s1, Blk(s.head))
        ELSE IF s2.ret # 0 THEN s2
        ELSE PrepareHead(s2, i + 1)

RestartRecovery(s, oldHead) ==
    LET s1 == IF s.rmeta = NoPage \/ ~SameBlk(s.rmeta, oldHead)
              THEN MarkBad(s, Blk(oldHead))
              ELSE [s EXCEPT !.badmeta = TRUE]
    IN  IF s.rnext = NoPage THEN [s1 EXCEPT !.tail = s1.head, !.root = NoPage]
        ELSE [s1 EXCEPT !.enumd = FALSE,
                        !.rnext = Blk(s1.rroot) * Ppb, !.root = s1.rroot]

RECURSIVE DumpMeta(_, _)
DumpMeta(s, i) ==
    LET s1 == PrepareHead(s, 0)
        s2 == IF s1.ret = 0
              THEN Prog(s1, s1.head, [k |-> "dump", meta |-> s1.buf]) ELSE s1
        h  == NextUpage(s2.head)
        s3 == [s2 EXCEPT !.rmeta = s2.head, !.head = h, !.buf = EmptyBuf]
        s4 == SkipBlock(MarkBad(s2, Blk(s2.head)))
    IN  IF i = Retries THEN Err(s, ErrTooBad)
        ELSE IF s2.ret = 0 THEN (IF h = 0 THEN RollStats(s3) ELSE s3)
        ELSE IF s2.ret # ErrBad THEN s2
        ELSE IF s4.ret # 0 THEN s4
        ELSE DumpMeta(s4, i + 1)

(* After a failed write, s.ret says how it failed *)
RecoverFrom(s) ==
    LET old == s.head
        s1  == SkipBlock(s)
        s2  == [s1 EXCEPT !.tail = s1.head, !.rroot = old, !.rnext = NoPage,
                          !.buf = EmptyBuf, !.rec = TRUE, !.enumd = TRUE,
                          !.rcv = TRUE]
        s3  == [s1 EXCEPT !.rroot = s1.root, !.rnext = Blk(s1.root) * Ppb]
        s4  == IF ~GAligned(old) /\ SameGrp(old, s3.root) THEN DumpMeta(s3, 0)
               ELSE s3
    IN  IF s.ret # ErrBad THEN s
        ELSE IF s1.ret # 0 THEN s1
        ELSE IF s1.rec THEN Err(RestartRecovery(s1, old), ErrRecover)
        ELSE IF Aligned(old) THEN Ok(MarkBad(s1, Blk(old)))
        ELSE IF s1.root = NoPage THEN Err(s2, ErrRecover)
        ELSE IF s4.ret # 0 THEN s4
        ELSE Err([s4 EXCEPT !.rec = TRUE, !.rcv = TRUE], ErrRecover)

FinishRecovery(s) ==
    LET s1 == MarkBad(s, Blk(s.rroot))
        s2 == IF s1.badmeta THEN MarkBad(s1, Blk(s1.rmeta)) ELSE s1
    IN  ClearRecovery(s2)

PushMeta(s, meta) ==
    LET old == s.head
        s1 == [s EXCEPT !.buf = [@ EXCEPT ![old % G] = meta]]
        s2 == Prog(s1, old + 1, [k |-> "cp", ep |-> s1.ep,
                        tail |-> IF s1.rec /\ ~s1.enumd THEN s1.ts ELSE s1.tail,
                        bbc |-> s1.bbc, bbl |-> s1.bbl, ck |-> s1.ck,
                        meta |-> s1.buf])
        f  == RecoverFrom(s2)
        h  == NextUpage(old)
        s3 == [s2 EXCEPT !.dirty = FALSE, !.root = old, !.head = h,
                         !.lcp = old + 1]
        s4 == IF h = 0 THEN RollStats(s3) ELSE s3
        s5 == IF s4.enumd THEN FinishRecovery(s4) ELSE s4
        s6 == IF s5.rec THEN s5 ELSE [s5 EXCEPT !.ts = s5.tail]
    IN  IF ~GAligned(old + 2)
        THEN Ok([s1 EXCEPT !.root = old, !.head = old + 1])
        ELSE IF s2.ret # 0
             THEN IF f.ret = 0 THEN Err(f, ErrRecover) ELSE f
        ELSE Ok(s6)

(* Enqueue: what is the kind of write ("data", "copy" or "none"), x the     *)
(* item or the page to copy.                                                *)
RECURSIVE Enqueue(_, _, _, _, _)
Enqueue(s, what, x, meta, i) ==
    LET s1 == PrepareHead(s, 0)
        s2 == IF s1.ret # 0 \/ what = "none" THEN s1
              ELSE IF what = "data" THEN Prog(s1, s1.head, Data(x))
              ELSE Copy(s1, x, s1.head)
        s3 == RecoverFrom(s2)
    IN  IF i = Retries THEN Err(s, ErrTooBad)
        ELSE IF s2.ret = 0 THEN PushMeta(s2, meta)
        ELSE IF s3.ret # 0 THEN s3
        ELSE Enqueue(s3, what, x, meta, i + 1)

NextRecoverable(s) ==
    IF ~s.rec \/ s.enumd THEN [s EXCEPT !.val = NoPage]
    ELSE IF s.rnext = s.rroot
         THEN [s EXCEPT !.enumd = TRUE, !.val = s.rnext]
    ELSE [s EXCEPT !.rnext = NextUpage(@), !.val = s.rnext]

(****************************************************************************)
(* The user                                                                 *)

(* The loop of journal.h: copy what's recoverable and still wanted (it's in *)
(* the queue w) until recovery is over. *)
RECURSIVE Recover(_, _, _)
Recover(s, w, n) ==
    LET s1 == NextRecoverable(s)
        p  == s1.val
        id == Live(w, p)
        s2 == IF p = NoPage THEN Enqueue(s1, "none", 0, Filler, 0)
              ELSE IF ReadMeta(s1, p) # id THEN Err(s1, -7)
              ELSE Enqueue(s1, "copy", p, id, 0)
    IN  IF ~s.rec THEN Ok(s)
        ELSE IF n = 0 THEN Err(s, -8)
        ELSE IF p # NoPage /\ id = 0 THEN Recover(s1, w, n - 1)
        ELSE IF s2.ret \notin {0, ErrRecover} THEN s2
        ELSE Recover(s2, w, n - 1)

RECURSIVE Push(_, _, _, _, _)
Push(s, what, x, meta, n) ==
    LET s1 == Enqueue(s, what, x, meta, 0)
        s2 == Recover(s1, Walk(s), 40)      \* what was there before
        w  == Walk(s2)
        at == {i \in DOMAIN w : w[i][2] = meta}
        x2 == IF what = "copy" /\ at # {}
              THEN w[CHOOSE i \in at : \A k \in at : k <= i][1] ELSE x
    IN  IF s1.ret # ErrRecover THEN s1
        ELSE IF s2.ret # 0 THEN s2
        ELSE IF n = 0 THEN Err(s2, -9)
        ELSE Push(s2, what, x2, meta, n - 1)
=============================================================================
