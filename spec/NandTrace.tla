------------------------------ MODULE NandTrace -----------------------------
(* Checks what the real code asked of the flash (harness/vnand.c) against   *)
(* NandSpec.  Only these lines matter here:                                 *)
(*   cfg      a new chip                                                    *)
(*   n        a flash operation: o = E(rase), P(rogram), B(ad); a = block   *)
(*            or page; r = 0 success, 1 failure, 2.. power cut, -9 out of   *)
(*            range; id = 0 if the page programmed is all 0xff              *)
(*   op, ret  a call returned                                               *)
(*   crash    power was lost                                                *)
(* jcfg, jop, jup, ... are what harness/jdrv.c has in place of these.       *)
EXTENDS NandSpec, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, clean

ECC == 2    \* DHARA_E_ECC

How(r) == CASE r = 0 -> "ok"   [] r = 1 -> "fail" [] r = 2 -> "none"
            [] r = 5 -> "done" [] OTHER -> "torn"

Init ==
    /\ l = 1 /\ clean = TRUE
    /\ nb = 0 /\ ppb = 1 /\ blankfree = FALSE
    /\ next = <<>> /\ marked = <<>> /\ failed = <<>> /\ ers = <<>>
    /\ slack = 0

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TCfg ==
    /\ Is("cfg")
    /\ LET e == Trace[l]
       IN  StartChip(e.nb, 2^e.lb, e.imp # 0, e.bad, e.gb = 0)
    /\ clean' = TRUE

TJournal ==
    /\ Is("jcfg")
    /\ LET e == Trace[l]
       IN  StartChip(e.nb, 2^e.lb, e.imp # 0, e.isbad, e.gb = 0)
    /\ clean' = TRUE

TErase ==
    /\ Is("n") /\ Trace[l].o = "E" /\ Trace[l].r >= 0
    /\ Erase(Trace[l].a, How(Trace[l].r))
    /\ Level'
    /\ UNCHANGED clean

TProgram ==
    /\ Is("n") /\ Trace[l].o = "P" /\ Trace[l].r >= 0
    /\ Program(Trace[l].a, Trace[l].id = 0, How(Trace[l].r))
    /\ UNCHANGED clean

TMark ==
    /\ Is("n") /\ Trace[l].o = "B" /\ Trace[l].r >= 0
    /\ MarkBad(Trace[l].a, How(Trace[l].r))
    /\ UNCHANGED clean

TReturn ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"op", "ret", "jop"} /\ l' = l + 1
    /\ Trace[l].r = 0 => Settled
    /\ clean' = (Trace[l].cl = 1)
    /\ IF Trace[l].r < 0 /\ Trace[l].x = ECC THEN GivenUp
       ELSE UNCHANGED nandvars

TCrash ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"crash", "jup"} /\ l' = l + 1
    /\ Restart(clean)
    /\ clean' = TRUE        \* crashing again changes nothing

TSkip ==
    /\ l <= Len(Trace)
    /\ Trace[l].e \in {"init", "up", "call", "probe", "deep", "fault", "end", "look",
                       "jinit", "jcall"}
    /\ l' = l + 1
    /\ clean' = (clean /\ Trace[l].e \notin {"call", "jcall"})
    /\ UNCHANGED nandvars

Next == TCfg \/ TJournal \/ TErase \/ TProgram \/ TMark \/ TReturn \/ TCrash \/ TSkip

Spec == Init /\ [][Next]_<<nandvars, l, clean>>

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
