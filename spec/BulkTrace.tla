------------------------------ MODULE BulkTrace -----------------------------
(* Large maps (harness/bulkdrv.c): what MapSpec calls a sector is a whole    *)
(* region of them here, dealt with by as many calls.  Also looks at the cost *)
(* of calls and at wear.                                                     *)
EXTENDS MapSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,      \* next line
    cf      \* chip and map, and the sizes of the regions

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)

Max(a, b) == IF a > b THEN a ELSE b

(* user pages in a checkpoint group *)
RECURSIVE GroupSize(_, _, _)
GroupSize(c, lp, lb) ==
    IF c < lb /\ (2 * 2^c - 1) * 132 + 20 <= 2^lp THEN GroupSize(c + 1, lp, lb)
    ELSE 2^c

RECURSIVE Total(_, _)
Total(m, i) == IF i = 0 THEN 0
               ELSE Total(m, i - 1) + IF m[i] = None THEN 0 ELSE cf.sizes[i]

Sectors(m) == Total(m, Len(m))

U == cf.g - 1
Gpb == cf.ppb \div cf.g

MinCapacity ==
    LET j == (cf.nb - Max(cf.bad, cf.nb \div 64) - 1) * Gpb * U
    IN  j - j \div (cf.gc + 1) - cf.rt * cf.ppb

Init ==
    /\ l = 1
    /\ cf = [nb |-> 1, ppb |-> 2, g |-> 2, gc |-> 1, rt |-> 8, bad |-> 0,
             sizes |-> <<>>]
    /\ cur = <<>> /\ pts = <<[st |-> <<>>, n |-> 0]>> /\ wr = 0 /\ win = 0
    /\ pend = Idle

TCfg ==
    /\ Is("cfg")
    /\ LET e == Trace[l]
       IN  cf' = [nb |-> e.nb, ppb |-> 2^e.lb, g |-> GroupSize(1, e.lp, e.lb),
                  gc |-> Max(e.gc, 1), rt |-> e.rt, bad |-> e.bad,
                  sizes |-> e.sizes]
    /\ UNCHANGED mapvars

(* All that's seen after a call *)
Seen(e, m) ==
    /\ e.v = m
    /\ e.vn = Sectors(m)
    /\ e.cz >= MinCapacity
    /\ e.lk <= 33                               \* a record for each bit
    /\ cf.bad = 0 => e.er[2] - e.er[1] <= 1     \* wear

BootOK(e) ==
    /\ e.most[1] <= 16 * (Log2(cf.nb) + 3) + Gpb
    /\ e.most[2] = 0 /\ e.most[3] = 0 /\ e.most[6] = 0
    /\ cf.bad = 0 => /\ e.most[4] <= 16 * (Log2(cf.nb) + 3)
                     /\ e.most[5] <= 2 * cf.g * (Log2(Gpb) + 2) + cf.ppb

TInit ==
    /\ Is("init")
    /\ LET e == Trace[l]
           m == [i \in DOMAIN cf.sizes |-> None]
       IN  /\ e.r = -1
           /\ BootOK(e)
           /\ Seen(e, m)
           /\ Start(m, 0)
    /\ UNCHANGED cf

(* As in CostTrace: reads, programs, erases of the costliest call *)
CostOK(e) ==
    LET step == 35
        steps == cf.gc + 2
        b == CASE e.op = "clear" -> <<0, 0, 0>>
               [] e.op = "gc" -> <<step, 2, 1>>
               [] e.op = "sync" -> <<2000000000, cf.g, 1>>
               [] OTHER -> <<(steps + 1) * step, 2 * steps,
                             1 + (2 * steps) \div cf.ppb>>
    IN  cf.bad = 0 => \A i \in 1 .. 3 : e.most[i] <= b[i]

TOp ==
    /\ Is("op")
    /\ pend = Idle
    /\ LET e == Trace[l]
           c == [op |-> e.op, s |-> e.s, s2 |-> e.s2, d |-> e.d]
       IN  /\ e.r = 0
           /\ c.op = "sync" => e.cl = 1
           /\ Finish(c, TRUE, e.cl = 1)
           /\ Seen(e, cur')
           /\ CostOK(e)
    /\ UNCHANGED cf

(* Restarts only happen after a sync here. *)
TUp ==
    /\ Is("up")
    /\ LET e == Trace[l]
       IN  /\ e.v \in Survivors
           /\ e.r # 0 => IsEmpty(e.v)
           /\ PowerLoss(e.v)
           /\ BootOK(e)
           /\ Seen(e, e.v)
    /\ UNCHANGED cf

TEnd == Is("end") /\ UNCHANGED <<mapvars, cf>>

Next == TCfg \/ TInit \/ TOp \/ TUp \/ TEnd

Spec == Init /\ [][Next]_<<mapvars, l, cf>>

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
