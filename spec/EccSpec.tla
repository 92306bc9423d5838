------------------------------ MODULE EccSpec -------------------------------
(* Error correcting codes, as the user sees them (ecc/bch.h, ecc/hamming.h).*)
(* A chunk is stored along with its code.  From then on bits get flipped,   *)
(* now and then somebody asks whether all is well, or for repairs.          *)
(*                                                                          *)
(* All that matters is which bits are wrong.  Bits are numbered: first      *)
(* those of the chunk, and then those of the code, of which the last few    *)
(* may be unused.                                                           *)
EXTENDS Integers, FiniteSets

VARIABLES
    wrong,  \* the set of flipped bits
    bits,   \* how many bits are there in the chunk
    code    \* [t: how many errors it can correct, d: detect,
            \*  bits: size of the code, both: is the code repaired as well?]

eccvars == <<wrong, bits, code>>

XOR(a, b) == (a \ b) \cup (b \ a)

(* Flipped bits in use *)
Real(w) == {p \in w : p < bits + code.bits}

InChunk(w) == {p \in w : p < bits}

Store(n) ==
    /\ wrong' = {}
    /\ bits' = n
    /\ UNCHANGED code

Damage(now) ==
    /\ wrong' = now
    /\ UNCHANGED <<bits, code>>

(* Asked if all is well, the answer is ok. *)
Verify(ok) ==
    /\ Real(wrong) = {} => ok
    /\ Cardinality(Real(wrong)) \in 1 .. code.d => ~ok
    /\ UNCHANGED eccvars

(* After repair, which may claim success, `now' are wrong. *)
Repair(now, claim) ==
    LET n == Cardinality(Real(wrong))
    IN  /\ n <= code.t =>
            /\ claim
            /\ InChunk(now) = {}
            /\ code.both => Real(now) = {}
            /\ ~code.both => now = wrong \ InChunk(wrong)
        /\ n \in code.t + 1 .. code.d /\ ~code.both =>
            /\ ~claim
            /\ now = wrong
        /\ wrong' = now
        /\ UNCHANGED <<bits, code>>
=============================================================================
