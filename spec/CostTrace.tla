------------------------------ MODULE CostTrace -----------------------------
(* How much flash work a call may cause ("all operations, including startup,*)
(* are O(log n) worst case in the size of the chip").                       *)
(*                                                                          *)
(* Looking up a sector visits one record per branch of the path to it: at   *)
(* most one for each bit of the address, and at most one for each sector    *)
(* there is.  All else follows: bounds depend on this, on the gc ratio and  *)
(* on the checkpoint size, and not on the size of the chip or its history.  *)
(* Only sync, which passes over garbage until it finds enough to write, may *)
(* look at everything in the journal; it never writes more than one group.  *)
(* Startup searches by bisection.                                           *)
(*                                                                          *)
(* cost = <<reads and copies, programs, erases, bad block queries, erased   *)
(* page queries, bad block marks>>, js = pages in the journal, fc = reads   *)
(* by the costliest pair of find and read of the same sector.               *)
(* For chips without bad blocks.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,
    cf,     \* geometry of this run
    n,      \* sectors mapped
    js,     \* pages in the journal
    op      \* the call in progress

vars == <<l, cf, n, js, op>>

RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

(* Records read by one lookup, among m sectors *)
Lookup(m) == 1 + Min(32, m)

(* One step of garbage collection: the page's own record, where the sector  *)
(* is now, and moving it *)
Step(m) == Lookup(m) + 2

Group == cf.u + 1

(* bounds on reads, programs, erases, bad block queries *)
Bounds(o, m) ==
    CASE o = "clear" -> <<0, 0, 0, 0>>
      [] o = "gc" -> <<Step(m), 2, 1, 3>>
      [] o = "sync" -> <<(js + 2 * Group) * Step(m), Group, 1,
                         2 * (js + 2 * Group)>>
      [] OTHER ->
            LET steps == cf.gc + 2
            IN  <<(steps + 1) * Step(m), 2 * steps,
                  1 + (2 * steps) \div cf.ppb, 3 * steps>>

(* Startup: blocks are found by bisection, where finding one that is in use *)
(* may take a few attempts; then pages within the block. *)
BootReads   == 16 * (Log2(cf.nb) + 3) + cf.gpb
BootQueries == 16 * (Log2(cf.nb) + 3)
BootFree    == 2 * Group * (Log2(cf.gpb) + 2) + cf.ppb

Init ==
    /\ l = 1
    /\ cf = [nb |-> 1, u |-> 1, gc |-> 1, ppb |-> 1, gpb |-> 1]
    /\ n = 0 /\ js = 0 /\ op = "none"

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TCfg ==
    /\ Is("cfg")
    /\ LET e == Trace[l]
       IN  cf' = [nb |-> e.nb, u |-> e.u, gc |-> Max(e.gc, 1),
                  ppb |-> 2^e.lb, gpb |-> 2^e.lb \div (e.u + 1)]
    /\ UNCHANGED <<n, js, op>>

LookupOK(e) == e.fc <= 2 * Lookup(e.vn) + 1

TBoot ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"init", "up"} /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ e.cost[1] <= BootReads
           /\ e.cost[2] = 0 /\ e.cost[3] = 0 /\ e.cost[6] = 0
           /\ e.cost[4] <= BootQueries
           /\ e.cost[5] <= BootFree
           /\ LookupOK(e)
           /\ n' = e.vn /\ js' = e.js
    /\ op' = "none"
    /\ UNCHANGED cf

TCall ==
    /\ Is("call")
    /\ op' = Trace[l].op
    /\ UNCHANGED <<cf, n, js>>

TReturn ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"op", "ret"} /\ l' = l + 1
    /\ LET e == Trace[l]
           o == IF e.e = "op" THEN e.op ELSE op
           b == Bounds(o, Max(n, e.vn))
       IN  /\ \A i \in 1..4 : e.cost[i] <= b[i]
           /\ e.cost[5] = 0 /\ e.cost[6] = 0
           /\ LookupOK(e)
           /\ n' = e.vn /\ js' = e.js
    /\ op' = "none"
    /\ UNCHANGED cf

TSkip ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"n", "crash", "end", "fault"}
    /\ l' = l + 1
    /\ UNCHANGED <<cf, n, js, op>>

Next == TCfg \/ TBoot \/ TCall \/ TReturn \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
