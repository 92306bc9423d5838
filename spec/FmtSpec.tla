------------------------------- MODULE FmtSpec ------------------------------
(* The format in which a map lies on flash, written down so that a chip can *)
(* be read by this module alone (map_internals.txt, and the layout comments *)
(* of journal.c and map.c).                                                 *)
(*                                                                          *)
(* Pages are grouped by powers of two.  The last page of a group is a       *)
(* checkpoint: "Dha", an epoch byte, then little-endian words: the tail of  *)
(* the journal, bad blocks met in this and in the last pass over the chip,  *)
(* the number of sectors mapped; then one record for each other page of the *)
(* group.  A record has the number of the sector its page holds, and one    *)
(* pointer for every bit of it, most significant first: where to find the   *)
(* latest record among those which differ from this sector in that bit, but *)
(* agree in all bits before.  All ones stands for none.                     *)
(*                                                                          *)
(* The record before the latest checkpoint is the root.  Following pointers *)
(* from there gives the contents of the map.                                *)
EXTENDS Integers, Sequences

NoPage == -1

(* A sector number is <<low half, high half>>. *)
NoSector == <<65535, 65535>>

Bit(s, d) == IF d < 16 THEN (s[2] \div 2^(15 - d)) % 2
                       ELSE (s[1] \div 2^(31 - d)) % 2

(* rec(p): the record of page p, [id, alt], alt[d + 1] for bit d.           *)
(* ok(p): may p be part of the map at all?                                  *)
RECURSIVE Follow(_, _, _, _, _)
Follow(rec(_), ok(_), s, p, d) ==
    IF p = NoPage THEN NoPage
    ELSE IF ~ok(p) THEN -2
    ELSE LET r == rec(p)
         IN  IF r.id = NoSector THEN NoPage
             ELSE LET diff == {x \in d .. 31 : Bit(s, x) # Bit(r.id, x)}
                  IN  IF diff = {} THEN p
                      ELSE LET x == CHOOSE y \in diff : \A z \in diff : y <= z
                           IN  Follow(rec, ok, s, r.alt[x + 1], x + 1)
=============================================================================
