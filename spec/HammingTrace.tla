---------------------------- MODULE HammingTrace ----------------------------
(* Checks recordings of the real Hamming code (harness/hamdrv.c).           *)
(*                                                                          *)
(* What it does is stated by EccSpec: one error is repaired (only in the    *)
(* chunk), two are noticed.  Whatever happened, nothing but the chunk       *)
(* is touched.                                                              *)
(* What it is: 12 pairs of bits.  The m'th pair is made up of the parity of *)
(* those bits of the chunk whose number has bit m set, and of those where   *)
(* it's clear, inverted.                                                    *)
EXTENDS EccSpec, Sequences, TLC, Json, IOUtils

G2 == INSTANCE Gf2

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l

vars == <<l, eccvars>>

Hamming == [t |-> 1, d |-> 2, bits |-> 24, both |-> FALSE]

(* The bits of the code which depend on bit i *)
Affects(i) == {2 * m + (IF m \in G2!Bits(i) THEN 0 ELSE 1) : m \in 0..11}

RECURSIVE FromBytes(_)
FromBytes(s) ==
    IF s = <<>> THEN {}
    ELSE G2!Bits(255 - Head(s)) \cup G2!Shift(FromBytes(Tail(s)), 8)

(* What the syndrome must be *)
RECURSIVE Syndrome(_)
Syndrome(w) ==
    IF w = {} THEN {}
    ELSE LET p == CHOOSE x \in w : TRUE
         IN  XOR(IF p < bits THEN Affects(p) ELSE {p - bits},
                 Syndrome(w \ {p}))

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Init == l = 1 /\ wrong = {} /\ bits = 0 /\ code = Hamming

THam == Is("ham") /\ UNCHANGED eccvars

TStore ==
    /\ Is("store")
    /\ Trace[l].same = 1
    /\ Trace[l].erased = 1 => Trace[l].ones = 1
    /\ Store(8 * Trace[l].len)

TFlip ==
    /\ Is("flip")
    /\ Damage({Trace[l].now[i] : i \in DOMAIN Trace[l].now})

TVerify ==
    /\ Is("verify")
    /\ Trace[l].same = 1
    /\ Verify(Trace[l].r = 0)
    /\ G2!Bits(Trace[l].h) = Syndrome(wrong)

TRepair ==
    /\ Is("repair")
    /\ Trace[l].r \in {0, -1}
    /\ LET now == {Trace[l].now[i] : i \in DOMAIN Trace[l].now}
       IN  now \ InChunk(now) = wrong \ InChunk(wrong)
    /\ Repair({Trace[l].now[i] : i \in DOMAIN Trace[l].now}, Trace[l].r = 0)

TUnit ==
    /\ Is("unit")
    /\ FromBytes(Trace[l].c) = Affects(Trace[l].i)
    /\ UNCHANGED eccvars

TSum ==
    /\ Is("sum")
    /\ LET e == Trace[l]
       IN  FromBytes(e.c) = XOR(FromBytes(e.a), FromBytes(e.b))
    /\ UNCHANGED eccvars

TSkip == Is("end") /\ UNCHANGED eccvars

Next == THam \/ TStore \/ TFlip \/ TVerify \/ TRepair \/ TUnit \/ TSum \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
