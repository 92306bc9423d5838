------------------------------ MODULE CrcTrace ------------------------------
(* Checks recordings of the real CRC-32 (harness/crcdrv.c) and of the table *)
(* printed by tools/gentab.                                                 *)
(*                                                                          *)
(* The state is a polynomial over GF(2), of degree below 32: the remainder  *)
(* of what has been seen so far, times x^32, on division by the generator.  *)
(* Everything is inverted, so that an erased block has an erased checksum,  *)
(* and in numbers the lowest bit is the highest power.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

G2 == INSTANCE Gf2

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rem

vars == <<l, rem>>

(* IEEE 802.3 *)
Ieee == {32, 26, 23, 22, 16, 12, 11, 10, 8, 7, 5, 4, 2, 1, 0}

(* c is a number in two halves, low one first *)
Poly(c) == {31 - e : e \in G2!Bits(c[1]) \cup G2!Shift(G2!Bits(c[2]), 16)}

Inverse(p) == (0 .. 31) \ p

(* The state as shown to the user *)
Shown(c) == Inverse(Poly(c))

(* Append one bit: the state so far times x, plus the bit times x^32 *)
Bit(p, b, g) ==
    LET q == G2!Shift(p, 1)
        r == IF b = 1 THEN G2!(+)(q, {32}) ELSE q
    IN  IF 32 \in r THEN G2!(+)(r, g) ELSE r

(* Append n bits of v, lowest first *)
RECURSIVE Low(_, _, _, _)
Low(p, v, n, g) ==
    IF n = 0 THEN p ELSE Low(Bit(p, v % 2, g), v \div 2, n - 1, g)

RECURSIVE Append8(_, _)
Append8(p, s) ==
    IF s = <<>> THEN p
    ELSE Append8(Low(p, 255 - Head(s), 8, Ieee), Tail(s))

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Init == l = 1 /\ rem = {}

TStart == Is("start") /\ rem' = Shown(Trace[l].c)

TAdd ==
    /\ Is("add")
    /\ rem' = Append8(rem, Trace[l].b)
    /\ rem' = Shown(Trace[l].c)

(* ... and n erased bytes, which are zeros when inverted *)
TGap ==
    /\ Is("gap")
    /\ rem' = G2!PolyMod(G2!PolyMul(rem, G2!XPow(8 * Trace[l].n, Ieee)), Ieee)
    /\ rem' = Shown(Trace[l].c)

(* The same, in one go *)
TWhole == Is("whole") /\ Shown(Trace[l].c) = rem /\ UNCHANGED rem

TErased == Is("erased") /\ Shown(Trace[l].c) = {} /\ UNCHANGED rem

(* In up to 4096 bits, three errors are always noticed (ecc/crc32.h); and   *)
(* so are, in blocks of any length, any that are within 32 bits. *)
TDamage ==
    /\ Is("damage")
    /\ LET e == Trace[l]
       IN  /\ e.n = 0 => e.differ = 0
           /\ e.n > 0 /\ e.n <= 3 /\ e.bits <= 4096 => e.differ = 1
           /\ e.n > 0 /\ e.span <= 32 => e.differ = 1
    /\ UNCHANGED rem

(* A line of the table printed by gentab for polynomial g: entry i is what  *)
(* becomes of i in eight steps. *)
TTable ==
    /\ Is("table")
    /\ LET e == Trace[l]
           g == Poly(e.g) \cup {32}
       IN  Poly(e.c) = Low({}, e.i, 8, g)
    /\ UNCHANGED rem

(* Arguments which make no sense: it says so, and gives no answer. *)
TWrong == Is("wrong") /\ Trace[l].r = "refused" /\ UNCHANGED rem

TSkip ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"crc", "end"} /\ l' = l + 1
    /\ UNCHANGED rem

Next == TStart \/ TAdd \/ TGap \/ TWhole \/ TErased \/ TDamage \/ TTable \/ TWrong \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
