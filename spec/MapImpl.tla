------------------------------- MODULE MapImpl ------------------------------
(* The algorithm of dhara/map.c on top of dhara/journal.c, down to the      *)
(* operations on flash.  Like JournalImpl, it's a transcription.            *)
(*                                                                          *)
(* Sector numbers have Depth bits instead of 32, most significant first.    *)
(* Metadata is a record: the sector, and an alternative page for each bit.  *)
(* The state has one more field: cnt, the number of sectors.                *)
EXTENDS JournalImpl

CONSTANTS
    Depth,      \* DHARA_RADIX_DEPTH
    GcRatio

ErrNotFound == 6
ErrMapFull  == 7

NoSector == -1
Levels   == 0 .. Depth - 1
NoAlts   == [i \in Levels |-> NoPage]
Erased   == [id |-> NoSector, alt |-> NoAlts]   \* Filler
Lost     == [id |-> -2, alt |-> NoAlts]         \* Unread

Bit(id, level) == (id \div 2^(Depth - 1 - level)) % 2

(****************************************************************************)
(* Finding                                                                  *)

Found(e, p, alt) == [e |-> e, p |-> p, alt |-> alt]

(* The loop of trace_path: at page p with metadata m.  alt has NoPage from  *)
(* this level on. *)
RECURSIVE Path(_, _, _, _, _, _)
Path(s, t, d, p, m, alt) ==
    LET q  == m.alt[d]
        a  == [alt EXCEPT ![d] = p]
        m2 == ReadMeta(s, q)
    IN  IF d = Depth THEN Found(0, p, alt)
        ELSE IF m.id = NoSector THEN Found(ErrNotFound, p, alt)
        ELSE IF Bit(t, d) = Bit(m.id, d)
             THEN Path(s, t, d + 1, p, m, [alt EXCEPT ![d] = q])
        ELSE IF q = NoPage THEN Found(ErrNotFound, p, a)
        ELSE IF q < 0 THEN Found(ErrRead, p, a)
        ELSE IF m2 = Lost THEN Found(ErrRead, p, a)
        ELSE Path(s, t, d + 1, q, m2, a)

TracePath(s, t) ==
    IF s.root = NoPage THEN Found(ErrNotFound, NoPage, NoAlts)
    ELSE LET m == ReadMeta(s, s.root)
         IN  IF m = Lost THEN Found(ErrRead, NoPage, NoAlts)
             ELSE Path(s, t, 0, s.root, m, NoAlts)

(* What's read from sector t: None (-1), the data, or what's wrong *)
Read(s, t) ==
    LET f == TracePath(s, t)
        c == s.fl[f.p]
    IN  IF f.e = ErrNotFound THEN -1
        ELSE IF f.e # 0 THEN -3
        ELSE IF c.k = "data" THEN c.id ELSE -4

MapCapacity(s) ==
    LET cap == Capacity(s)
        less == cap \div (GcRatio + 1) + Retries * Ppb
    IN  IF less >= cap THEN 0 ELSE cap - less

(****************************************************************************)
(* Garbage collection and recovery                                          *)

SetCount(s) == [s EXCEPT !.ck = s.cnt]

RawGc(s, src) ==
    LET m == ReadMeta(s, src)
        f == TracePath(s, m.id)
    IN  IF m = Lost THEN Err(s, ErrRead)
        ELSE IF m.id = NoSector THEN Ok(s)
        ELSE IF f.e = ErrNotFound THEN Ok(s)
        ELSE IF f.e # 0 THEN Err(s, f.e)
        ELSE IF f.p # src THEN Ok(s)
        ELSE Enqueue(SetCount(s), "copy", src, [id |-> m.id, alt |-> f.alt], 0)

PadQueue(s) ==
    LET m == ReadMeta(s, s.root)
    IN  IF s.root = NoPage THEN Enqueue(SetCount(s), "none", 0, Filler, 0)
        ELSE IF m = Lost THEN Err(s, ErrRead)
        ELSE Enqueue(SetCount(s), "copy", s.root, m, 0)

RECURSIVE GcPages(_, _)
GcPages(s, p) ==
    IF p > s.rroot THEN Ok(s)
    ELSE LET x == RawGc(s, p)
         IN  IF x.ret # 0 THEN x ELSE GcPages(x, p + 1)

RecoverBuffered(s) ==
    IF s.rmeta = NoPage THEN Ok(s) ELSE GcPages(s, s.rroot - (s.rroot % G))

RECURSIVE RecoverLoop(_, _, _)
RecoverLoop(s, restart, n) ==
    LET r == NextRecoverable(s)
        x == IF restart THEN RecoverBuffered(s)
             ELSE IF r.val = NoPage THEN PadQueue(r)
             ELSE RawGc(r, r.val)
    IN  IF ~s.rec THEN Ok(s)
        ELSE IF x.ret = 0 THEN RecoverLoop(x, FALSE, n)
        ELSE IF x.ret # ErrRecover THEN x
        ELSE IF n >= Retries THEN Err(x, ErrTooBad)
        ELSE RecoverLoop(x, TRUE, n + 1)

TryRecover(s) ==
    IF s.ret # ErrRecover THEN s ELSE RecoverLoop(s, TRUE, 0)

RECURSIVE GcLoop(_)
GcLoop(s) ==
    LET t == Peek(s)
        x == RawGc(t, t.val)
        y == TryRecover(x)
    IN  IF t.val = NoPage THEN Ok(t)
        ELSE IF x.ret = 0 THEN Dequeue(x)
        ELSE IF y.ret # 0 THEN y
        ELSE GcLoop(y)

Gc(s) == IF s.cnt = 0 THEN Ok(s) ELSE GcLoop(s)

RECURSIVE GcTimes(_, _)
GcTimes(s, n) ==
    IF n = 0 THEN Ok(s)
    ELSE LET x == Gc(s) IN IF x.ret # 0 THEN x ELSE GcTimes(x, n - 1)

AutoGc(s) ==
    IF Size(s) < MapCapacity(s) THEN Ok(s) ELSE GcTimes(s, GcRatio + 1)

(****************************************************************************)
(* The calls                                                                *)

(* dhara_map_write and dhara_map_copy_page: x is the data, or the sector on  *)
(* the page to copy. *)
RECURSIVE MWrite(_, _, _, _)
MWrite(s, what, x, dst) ==
    LET a == AutoGc(s)
        f == TracePath(a, dst)
        new == f.e = ErrNotFound
        b == SetCount([a EXCEPT !.cnt = IF new THEN @ + 1 ELSE @])
        y == IF what = "copy" THEN TracePath(b, x).p ELSE x
        c == Enqueue(b, what, y, [id |-> dst, alt |-> f.alt], 0)
        d == TryRecover([c EXCEPT !.cnt = s.cnt])
    IN  IF a.ret # 0 THEN a
        ELSE IF f.e # 0 /\ ~new THEN Err(a, f.e)
        ELSE IF new /\ a.cnt >= MapCapacity(a) THEN Err(a, ErrMapFull)
        ELSE IF c.ret = 0 THEN c
        ELSE IF d.ret # 0 THEN d
        ELSE MWrite(d, what, x, dst)

TryDelete(s, t) ==
    LET f == TracePath(s, t)
        c == {i \in Levels : f.alt[i] # NoPage}
        level == CHOOSE i \in c : \A k \in c : k <= i
        alt == f.alt[level]
        m == ReadMeta(s, alt)
        new == [id |-> m.id, alt |-> [i \in Levels |->
                    IF i < level THEN f.alt[i]
                    ELSE IF i = level THEN NoPage ELSE m.alt[i]]]
        x == Enqueue([s EXCEPT !.ck = s.cnt - 1], "copy", alt, new, 0)
    IN  IF f.e = ErrNotFound THEN Ok(s)
        ELSE IF f.e # 0 THEN Err(s, f.e)
        ELSE IF c = {} THEN Ok(Clear([s EXCEPT !.cnt = 0]))
        ELSE IF alt < 0 THEN Err(s, ErrRead)
        ELSE IF m = Lost THEN Err(s, ErrRead)
        ELSE IF x.ret = 0 THEN [x EXCEPT !.cnt = @ - 1]
        ELSE x

RECURSIVE Trim(_, _)
Trim(s, t) ==
    LET a == AutoGc(s)
        x == TryDelete(a, t)
        y == TryRecover(x)
    IN  IF a.ret # 0 THEN a
        ELSE IF x.ret = 0 THEN x
        ELSE IF y.ret # 0 THEN y
        ELSE Trim(y, t)

CopySector(s, src, dst) ==
    LET f == TracePath(s, src)
    IN  IF f.e = ErrNotFound THEN Trim(s, dst)
        ELSE IF f.e # 0 THEN Err(s, f.e)
        ELSE MWrite(s, "copy", src, dst)

RECURSIVE Sync(_)
Sync(s) ==
    LET t == Peek(s)
        x == IF t.val = NoPage THEN PadQueue(t) ELSE RawGc(t, t.val)
        y == IF x.ret = 0 THEN (IF t.val = NoPage THEN x ELSE Dequeue(x))
             ELSE TryRecover(x)
    IN  IF ~s.dirty THEN Ok(s)
        ELSE IF y.ret # 0 THEN y
        ELSE Sync(y)

ClearMap(s) == IF s.cnt = 0 THEN Ok(s) ELSE Ok(Clear([s EXCEPT !.cnt = 0]))

MapResume(s) ==
    LET r == Resume(s) IN [r EXCEPT !.cnt = IF r.ret = 0 THEN r.ck ELSE 0]
=============================================================================
