------------------------------ MODULE NandSpec ------------------------------
(* What a flash chip may be asked to do (dhara/nand.h), and how its wear is *)
(* to be spread.                                                            *)
(*                                                                          *)
(*  - pages are programmed in order within a block, none twice between      *)
(*    erases (an implementation which can't tell an erased page from one    *)
(*    holding only 0xff lets those be programmed again);                    *)
(*  - blocks marked bad are left alone, for good;                           *)
(*  - once the chip reported that a block failed, it's not erased or        *)
(*    programmed any more, and by the time a call succeeds it's marked bad, *)
(*    once; nothing else ever is;                                           *)
(*  - erase counts of good blocks differ by at most one, plus one for every *)
(*    unclean restart (where we can't know whether a block was erased), and *)
(*    for every call given up for want of a page which can't be read (the   *)
(*    block erased for its copy is erased again for the next page).         *)
EXTENDS Integers, FiniteSets

VARIABLES
    nb, ppb,    \* geometry
    blankfree,  \* is a page holding 0xff free?
    next,       \* block -> first page which may be programmed (ppb: none)
    marked,     \* block -> marked bad
    failed,     \* block -> reported a failure since we started
    ers,        \* block -> number of erase operations
    slack       \* unclean restarts, and calls given up

nandvars == <<nb, ppb, blankfree, next, marked, failed, ers, slack>>

Blocks == 0 .. nb - 1
BlockOf(p) == p \div ppb
PageIn(p)  == p % ppb

(* A chip in unknown state: every block must be erased before use. *)
StartChip(n, pages, bf, bad, erased) ==
    /\ nb' = n /\ ppb' = pages /\ blankfree' = bf
    /\ next' = [b \in 0 .. n - 1 |-> IF erased THEN 0 ELSE pages]
    /\ marked' = [b \in 0 .. n - 1 |-> bad[b + 1] # 0]
    /\ failed' = [b \in 0 .. n - 1 |-> FALSE]
    /\ ers' = [b \in 0 .. n - 1 |-> 0]
    /\ slack' = 0

Usable(b) == b \in Blocks /\ ~marked[b] /\ ~failed[b]

(* how: "ok", "fail", or what a power cut left: "none" (nothing happened),  *)
(* "torn", "done" (complete, but we don't know)                             *)
Erase(b, how) ==
    /\ Usable(b)
    /\ ers' = IF how = "none" THEN ers ELSE [ers EXCEPT ![b] = @ + 1]
    /\ next' = CASE how = "none" -> next
                 [] how \in {"ok", "done"} -> [next EXCEPT ![b] = 0]
                 [] OTHER -> [next EXCEPT ![b] = ppb]
    /\ failed' = [failed EXCEPT ![b] = (how = "fail")]
    /\ UNCHANGED <<nb, ppb, blankfree, marked, slack>>

Program(p, isblank, how) ==
    LET b == BlockOf(p)
    IN  /\ p \in 0 .. nb * ppb - 1
        /\ Usable(b)
        /\ PageIn(p) >= next[b]
        /\ next' = IF how = "none" \/ (isblank /\ blankfree /\ how # "torn")
                   THEN next
                   ELSE [next EXCEPT ![b] = PageIn(p) + 1]
        /\ failed' = [failed EXCEPT ![b] = (how = "fail")]
        /\ UNCHANGED <<nb, ppb, blankfree, marked, ers, slack>>

MarkBad(b, how) ==
    /\ b \in Blocks
    /\ failed[b] /\ ~marked[b]
    /\ marked' = IF how = "none" THEN marked ELSE [marked EXCEPT ![b] = TRUE]
    /\ UNCHANGED <<nb, ppb, blankfree, next, failed, ers, slack>>

(* A call succeeded. *)
Settled == \A b \in Blocks : failed[b] => marked[b]

(* Power was lost: nobody remembers what has failed. *)
Restart(clean) ==
    /\ failed' = [b \in Blocks |-> FALSE]
    /\ slack' = IF clean THEN slack ELSE slack + 1
    /\ UNCHANGED <<nb, ppb, blankfree, next, marked, ers>>

(* A call failed because a page can't be read. *)
GivenUp ==
    /\ slack' = slack + 1
    /\ UNCHANGED <<nb, ppb, blankfree, next, marked, failed, ers>>

Level ==
    LET good == {b \in Blocks : ~marked[b] /\ ~failed[b]}
    IN  \A a, b \in good : ers[a] - ers[b] <= 1 + slack

=============================================================================
