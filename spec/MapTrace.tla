------------------------------ MODULE MapTrace ------------------------------
(* Checks recordings of the real map layer (harness/mapdrv.c) against       *)
(* MapSpec.  A file holds many runs, each starting with a "cfg" line.       *)
(*                                                                          *)
(*   op / call..ret   an API call: arguments, result, and everything that   *)
(*                    can then be read back (v: contents of each sector,    *)
(*                    vn: dhara_map_size)                                   *)
(*   probe            inside a call: what a resume would find if power      *)
(*                    failed at this very point (done on a copy of the      *)
(*                    chip), possibly with the current flash operation torn *)
(*   deep             the same, then a write, sync and another resume       *)
(*   look             what find and read say while reads fail               *)
(*   crash, up        the real thing: power failed, and we resumed          *)
(*                                                                          *)
(* In v, None is "not mapped"; anything below that is garbage, an error or  *)
(* an inconsistency, which no state of MapSpec contains.                    *)
EXTENDS MapSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,      \* next line
    cf      \* this run: [k: number of sectors,
            \*   eccok: does it inject read errors?
            \*   known: may it meet the "torn checkpoint" of KNOWN_FINDINGS?
            \*   u: user pages in a checkpoint group, gpb: groups in a block,
            \*   nb: blocks, gc: gc ratio, rt: blocks in reserve]

tvars == <<l, cf>>

ErrECC     == 2
ErrNotFound == 6
ErrFull    == 7     \* DHARA_E_MAP_FULL
AnyErr     == -1    \* the caller didn't ask

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Init ==
    /\ l = 1
    /\ cf = [k |-> 0, eccok |-> FALSE, known |-> FALSE, u |-> 1, gpb |-> 1,
              nb |-> 1, gc |-> 1, rt |-> 1]
    /\ cur = <<>> /\ pts = <<[st |-> <<>>, n |-> 0]>> /\ wr = 0 /\ win = 0
    /\ pend = Idle

(* What the map can hold: the user pages of all good blocks but one, less   *)
(* the share of the garbage collector, less some blocks in reserve.  bad   *)
(* blocks are only known to it once met, so this is a lower bound.          *)
MinCapacity(bad) ==
    LET mb == IF bad > cf.nb \div 64 THEN bad ELSE cf.nb \div 64
        j  == (cf.nb - mb - 1) * cf.gpb * cf.u
        c  == j - j \div (cf.gc + 1) - cf.rt * cf.gpb * (cf.u + 1)
    IN  IF c < 0 THEN 0 ELSE c

(* A new chip, freshly started: resume says there's nothing there, and the  *)
(* map is empty.                                                            *)
TCfg ==
    /\ Is("cfg")
    /\ LET e == Trace[l]
       IN  cf' = [k |-> e.k, eccok |-> e.eccop # 0, known |-> e.kf # 0,
                  u |-> e.u, gpb |-> 2^e.lb \div (e.u + 1), nb |-> e.nb,
                  gc |-> IF e.gc = 0 THEN 1 ELSE e.gc, rt |-> e.rt]
    /\ UNCHANGED mapvars

TInit ==
    /\ Is("init")
    /\ LET e == Trace[l]
           m == [i \in 1..cf.k |-> None]
       IN  /\ e.r = -1
           /\ e.ro = 0
           /\ e.v = m
           /\ e.vn = 0
           /\ e.cz >= MinCapacity(e.bb)
           /\ Start(m, e.win)
    /\ UNCHANGED cf

Args(e) == [op |-> e.op, s |-> e.s, s2 |-> e.s2, d |-> e.d]

(* A call failed: may it? *)
MayFail(c, e) ==
    \/ /\ e.x \in {ErrFull, AnyErr}       \* full, and it really is
       /\ Adds(cur, c)
       /\ Count(cur) >= e.c0
    \/ /\ cf.eccok                           \* a read error was injected
       /\ e.x = ErrECC
       /\ e.et = 1
    \/ /\ cf.known                           \* KNOWN_FINDINGS: "torn checkpoint"
       /\ e.x = ErrECC
       /\ e.et = 2

Outcome(c, e) ==
    /\ IF e.r = 0
       THEN /\ c.op = "sync" => e.cl = 1
            /\ Adds(cur, c) => Count(cur) < e.c1
            /\ Finish(c, TRUE, e.cl = 1)
       ELSE /\ MayFail(c, e)
            /\ Finish(c, FALSE, e.cl = 1)
    /\ e.v = cur'
    /\ e.vn = Count(cur')
    /\ e.cz >= MinCapacity(e.bb)

TOp ==
    /\ Is("op")
    /\ pend = Idle
    /\ Outcome(Args(Trace[l]), Trace[l])
    /\ UNCHANGED cf

TCall ==
    /\ Is("call")
    /\ Call(Args(Trace[l]))
    /\ UNCHANGED cf

TRet ==
    /\ Is("ret")
    /\ pend # Idle
    /\ Outcome(pend, Trace[l])
    /\ UNCHANGED cf

(* Looking things up while reads fail gives the right answer, or the error. *)
TLook ==
    /\ Is("look")
    /\ pend = Idle
    /\ LET e == Trace[l]
       IN  \A i \in DOMAIN cur :
            /\ \/ e.f[i] = ErrECC
               \/ e.f[i] = IF cur[i] = None THEN ErrNotFound ELSE 0
            /\ \/ e.r[i] = ErrECC
               \/ e.r[i] = 0 /\ e.d[i] = IF cur[i] = None THEN 0 ELSE cur[i]
    /\ UNCHANGED <<mapvars, cf>>

(* Resuming reads only.  It may only fail if there is nothing to find. *)
Resumed(e) ==
    /\ e.ro = 0
    /\ e.v \in Survivors
    /\ e.vn = Count(e.v)
    /\ e.r # 0 => IsEmpty(e.v)

TProbe ==
    /\ Is("probe")
    /\ Resumed(Trace[l])
    /\ UNCHANGED <<mapvars, cf>>

(* After a resume at any point the map works, and what's written and synced *)
(* is found again.                                                          *)
TDeep ==
    /\ Is("deep")
    /\ LET e == Trace[l]
           c == [op |-> "w", s |-> e.s, s2 |-> e.s, d |-> e.d]
       IN  /\ e.v \in Survivors
           /\ \/ e.r1 = 0 /\ e.r2 = 0 /\ e.r3 = 0 /\ e.w = Post(e.v, c)
              \/ e.r1 = 1 /\ Adds(e.v, c)                  \* full
              \/ /\ \/ e.r1 < 0 /\ e.x1 = ErrECC
                    \/ e.r2 < 0 /\ e.x2 = ErrECC
                 /\ cf.known /\ e.et = 2                      \* KNOWN_FINDINGS
                 /\ e.w = IF e.r1 < 0 THEN e.v ELSE Post(e.v, c)
           /\ e.w # <<>> /\ e.wn = Count(e.w)
    /\ UNCHANGED <<mapvars, cf>>

TCrash ==
    /\ Is("crash")
    /\ UNCHANGED <<mapvars, cf>>

TUp ==
    /\ Is("up")
    /\ Resumed(Trace[l])
    /\ Trace[l].cz >= MinCapacity(Trace[l].bb)
    /\ PowerLoss(Trace[l].v)
    /\ UNCHANGED cf

(* What the flash went through is of no interest here. *)
TSkip ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"fault", "n", "end"}
    /\ l' = l + 1
    /\ UNCHANGED <<mapvars, cf>>

Next ==
    TCfg \/ TLook \/ TInit \/ TOp \/ TCall \/ TRet \/ TProbe \/ TDeep \/ TCrash \/ TUp
        \/ TSkip

Spec == Init /\ [][Next]_<<mapvars, tvars>>

Inv == TypeOK /\ Interval

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
