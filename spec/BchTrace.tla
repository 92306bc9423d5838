------------------------------ MODULE BchTrace ------------------------------
(* Checks recordings of the real BCH codes (harness/bchdrv.c).              *)
(*                                                                          *)
(* What they do is stated by EccSpec: t errors are repaired, 2t noticed.    *)
(* What they are: number the bits of a chunk from 0, and let those of the   *)
(* code follow.  With all bits inverted, and taken as the coefficients of a *)
(* polynomial, that's a multiple of the generator, which is the product of  *)
(* the minimal polynomials of alpha, alpha^3, ... alpha^(2t-1) in GF(2^13). *)
(*   store        a new chunk                                               *)
(*   flip         some bits were flipped (now: which are wrong)             *)
(*   verify, repair                                                         *)
(*   unit         the code of a chunk with all bits set, but the i'th last  *)
(*   sum          codes of two chunks and of their sum (inverted)           *)
EXTENDS EccSpec, Sequences, TLC, Json, IOUtils

G2 == INSTANCE Gf2

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, pow

vars == <<l, pow, eccvars>>

Field == {0, 1, 3, 4, 13}

Generator == <<
    Field,
    {0, 1, 3, 6, 8, 10, 12, 16, 18, 20, 22, 23, 26},
    {0, 2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 15, 17, 20, 21, 23, 24, 26, 28,
     29, 30, 31, 33, 35, 36, 37, 39},
    {0, 1, 3, 5, 7, 9, 10, 15, 16, 17, 19, 21, 23, 24, 25, 30, 36, 37, 41,
     44, 46, 50, 52} >>

(* Minimal polynomials are of degree 13 and differ, so these are their      *)
(* products. *)
ASSUME \A t \in 1..4 :
    /\ G2!Deg(Generator[t]) = 13 * t
    /\ \A i \in 1..t : G2!IsRoot(Generator[t], 2 * i - 1, Field)

(* p / x mod g *)
Over_x(p, g) == G2!Shift(IF 0 \in p THEN G2!(+)(p, g) ELSE p, -1)

RECURSIVE FromBytes(_)
FromBytes(s) ==
    IF s = <<>> THEN {}
    ELSE G2!Bits(255 - Head(s)) \cup G2!Shift(FromBytes(Tail(s)), 8)

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Init ==
    /\ l = 1 /\ pow = {0}
    /\ wrong = {} /\ bits = 0
    /\ code = [t |-> 0, d |-> 0, bits |-> 0, both |-> TRUE]

TBch ==
    /\ Is("bch")
    /\ LET e == Trace[l]
       IN  /\ e.deg = 13 * e.t
           /\ e.bytes = (e.deg + 7) \div 8
           /\ code' = [t |-> e.t, d |-> 2 * e.t, bits |-> e.deg,
                       both |-> TRUE]
    /\ pow' = {0}
    /\ wrong' = {} /\ bits' = 0

(* An erased chunk has an erased code. *)
TStore ==
    /\ Is("store")
    /\ Trace[l].same = 1
    /\ Trace[l].erased = 1 => Trace[l].ones = 1
    /\ Store(8 * Trace[l].len)
    /\ UNCHANGED pow

TFlip ==
    /\ Is("flip")
    /\ Damage({Trace[l].now[i] : i \in DOMAIN Trace[l].now})
    /\ UNCHANGED pow

TVerify ==
    /\ Is("verify")
    /\ Trace[l].same = 1
    /\ Trace[l].r \in {0, -1}
    /\ Verify(Trace[l].r = 0)
    /\ UNCHANGED pow

TRepair ==
    /\ Is("repair")
    /\ Repair({Trace[l].now[i] : i \in DOMAIN Trace[l].now}, TRUE)
    /\ UNCHANGED pow

TUnit ==
    /\ Is("unit")
    /\ pow' = Over_x(IF Trace[l].i = 1 THEN {0} ELSE pow, Generator[code.t])
    /\ FromBytes(Trace[l].c) = pow'
    /\ UNCHANGED eccvars

TSum ==
    /\ Is("sum")
    /\ LET e == Trace[l]
       IN  FromBytes(e.c) = G2!(+)(FromBytes(e.a), FromBytes(e.b))
    /\ UNCHANGED <<eccvars, pow>>

TSkip == Is("end") /\ UNCHANGED <<eccvars, pow>>

Next == TBch \/ TStore \/ TFlip \/ TVerify \/ TRepair \/ TUnit \/ TSum \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
