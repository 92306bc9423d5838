------------------------------ MODULE ErrTrace ------------------------------
(* Checks recordings of dhara_strerror and of the helpers in bytes.h and    *)
(* error.h (harness/errdrv.c): each error has a message of its own, always  *)
(* the same; what isn't an error code has a message, too, which is none of  *)
(* those; and numbers are stored lowest byte first, touching nothing else.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, msgs, other

vars == <<l, msgs, other>>

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Init == l = 1 /\ msgs = <<>> /\ other = <<>>

TMsg ==
    /\ Is("msg")
    /\ LET e == Trace[l]
       IN  /\ e.null = 0 /\ e.s # <<>>
           /\ \A i \in DOMAIN msgs : (msgs[i].v = e.v) <=> (msgs[i].s = e.s)
           /\ other # e.s
           /\ msgs' = IF \E i \in DOMAIN msgs : msgs[i].v = e.v THEN msgs
                      ELSE Append(msgs, [v |-> e.v, s |-> e.s])
    /\ UNCHANGED other

TNoMsg ==
    /\ Is("nomsg")
    /\ LET e == Trace[l]
       IN  /\ e.null = 0 /\ e.s # <<>>
           /\ \A i \in DOMAIN msgs : msgs[i].s # e.s
           /\ other \in {<<>>, e.s}
           /\ other' = e.s
    /\ UNCHANGED msgs

T32 ==
    /\ Is("w32")
    /\ LET e == Trace[l]
       IN  /\ e.b = <<165, 165, e.lo % 256, e.lo \div 256,
                      e.hi % 256, e.hi \div 256, 165, 165>>
           /\ e.rlo = e.lo /\ e.rhi = e.hi
    /\ UNCHANGED <<msgs, other>>

T16 ==
    /\ Is("w16")
    /\ LET e == Trace[l]
       IN  /\ e.b = <<165, 165, 165, e.lo % 256, e.lo \div 256, 165, 165, 165>>
           /\ e.rlo = e.lo
    /\ UNCHANGED <<msgs, other>>

TSet ==
    /\ Is("set")
    /\ Trace[l].r = Trace[l].v
    /\ UNCHANGED <<msgs, other>>

TSkip == Is("end") /\ msgs' = <<>> /\ other' = <<>>

Next == TMsg \/ TNoMsg \/ T32 \/ T16 \/ TSet \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
