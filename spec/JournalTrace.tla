---------------------------- MODULE JournalTrace ----------------------------
(* Checks recordings of the real journal (harness/jdrv.c), used as a queue, *)
(* against JournalSpec.                                                     *)
(*   jcfg           a new chip                                              *)
(*   jinit, jup     started, restarted                                      *)
(*   jop            a call and its outcome: q the items in the journal,     *)
(*                  found by walking it; rt the root; ck the cookie; js,    *)
(*                  cap dhara_journal_size, _capacity; pages how many pages *)
(*                  were met on the walk; h what was to be dequeued         *)
(*                  rcv was there a recovery?                              *)
(*   jcall          a call interrupted by loss of power; nf of jup is the   *)
(*                  number of operations that failed in it                  *)
(* Moving an item to the front ("rot") leaves the old copy behind until     *)
(* it's dequeued, and so does recovery when blocks fail: of each item only  *)
(* the last copy counts.                                                    *)
EXTENDS JournalSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cf

tvars == <<l, cf>>

ErrFull == 5     \* DHARA_E_JOURNAL_FULL

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Dedup(s) ==
    LET last(i) == \A k \in i + 1 .. Len(s) : s[k] # s[i]
        ix == SelectSeq([i \in DOMAIN s |-> i], last)
    IN  [i \in DOMAIN ix |-> s[ix[i]]]

(* User pages per block *)
Upb == cf.gpb * cf.u

Sizes(e) ==
    /\ e.pages <= e.js
    /\ Len(e.q) <= e.pages
    \* with nothing to be made permanent, what was dequeued is free again
    /\ e.cl = 1 /\ cf.mf = 0 => e.js <= e.pages + cf.maxbad * Upb
    /\ e.js <= cf.nb * Upb
    /\ e.cap <= (cf.nb - 1) * Upb
    /\ e.cap >= (cf.nb - 1 - cf.maxbad) * Upb

Init ==
    /\ l = 1
    /\ cf = [flt |-> FALSE, gpb |-> 1, u |-> 1, nb |-> 1, mf |-> 0, maxbad |-> 0]
    /\ q = <<>> /\ rt = NoItem /\ ck = 0
    /\ cp = [q |-> <<>>, rt |-> NoItem, ck |-> 0, blank |-> TRUE]
    /\ gone = 0 /\ dirty = FALSE /\ run = 0 /\ period = 1 /\ jpend = JIdle

TCfg ==
    /\ Is("jcfg")
    /\ LET e == Trace[l]
       IN  cf' = [flt |-> e.flt # 0, gpb |-> 2^e.lb \div (e.u + 1),
                  u |-> e.u, nb |-> e.nb, mf |-> e.mf,
                  maxbad |-> e.bad + e.nb \div 64 + e.mf]
    /\ UNCHANGED jvars

TInit ==
    /\ Is("jinit")
    /\ LET e == Trace[l]
       IN  /\ e.r = -1 /\ e.ro = 0 /\ e.q = <<>> /\ e.rt = NoItem
           /\ e.cl = 1 /\ e.js = 0 /\ e.pages = 0
           /\ Sizes(e)
           /\ JStart(e.ck, cf.u)
    /\ UNCHANGED cf

Call(e) == [op |-> e.op, id |-> e.id, h |-> e.h]

TOp ==
    /\ Is("jop")
    /\ LET e == Trace[l]
           nq == Dedup(e.q)
           again == In(e.h, e.q)
       IN  /\ e.rec = 0
           /\ \A i \in DOMAIN e.q : e.q[i] > 0
           /\ Sizes(e)
           /\ IF e.r = 0
              THEN /\ JReturn(Call(e), e.cl = 1, e.rt, again, e.rcv # 0)
                   /\ Regular' \/ cf.flt
              ELSE /\ e.x = ErrFull
                   /\ Pushes(Call(e))
                   /\ e.js + Upb > e.cap
                   /\ ~cf.flt     \* space was kept in reserve
                   /\ JFail
                   /\ e.rt = rt
                   /\ dirty' = (e.cl = 0)
           /\ q' = nq
           /\ ck' = e.ck
    /\ UNCHANGED cf

TCall ==
    /\ Is("jcall")
    /\ jpend' = Call(Trace[l])
    /\ UNCHANGED <<q, rt, ck, cp, gone, dirty, run, period, cf>>

TUp ==
    /\ Is("jup")
    /\ LET e == Trace[l]
       IN  /\ e.ro = 0 /\ e.cl = 1 /\ e.rec = 0
           /\ Sizes(e)
           /\ JPowerLoss(jpend, Dedup(e.q), e.rt, e.ck, e.r # 0, e.nf > 0)
    /\ UNCHANGED cf

TSkip ==
    /\ Is("end")
    /\ UNCHANGED <<jvars, cf>>

Next == TCfg \/ TInit \/ TOp \/ TCall \/ TUp \/ TSkip

Spec == Init /\ [][Next]_<<jvars, tvars>>

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
