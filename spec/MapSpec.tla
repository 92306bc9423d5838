------------------------------ MODULE MapSpec ------------------------------
(* What a user of the map layer (dhara/map.h) may rely on: the abstract     *)
(* state and transitions.  Sectors are positions of a tuple, page contents  *)
(* are identified with integers, and None stands for "not mapped".          *)
(*                                                                          *)
(* Power may fail at any moment, also inside a call.  `pts' holds the       *)
(* states the map may then be found in: it always ends with the current     *)
(* state, and is cut back to just that one at every synchronization point.  *)
(* Synchronization points occur at regular intervals: at most `win' updates *)
(* can be lost.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

None == -1

VARIABLES
    cur,    \* the map: tuple over sectors of data ids
    pts,    \* restart points: sequence of [st, n], oldest first
    wr,     \* number of updates (operations which write a page) so far
    win,    \* updates which may be lost: checkpoint group size minus one
    pend    \* the call in progress, or Idle

mapvars == <<cur, pts, wr, win, pend>>

Idle == [op |-> "idle", s |-> 0, s2 |-> 0, d |-> 0]
Ops  == {"w", "t", "cs", "cp", "gc", "sync", "clear"}

Count(m)    == Cardinality({i \in DOMAIN m : m[i] # None})
Unmapped(m) == [i \in DOMAIN m |-> None]
IsEmpty(m)  == \A i \in DOMAIN m : m[i] = None

(* The map after a successful call. *)
Post(m, c) ==
    CASE c.op = "w"     -> [m EXCEPT ![c.s] = c.d]
      [] c.op = "t"     -> [m EXCEPT ![c.s] = None]
      [] c.op = "cs"    -> [m EXCEPT ![c.s] = m[c.s2]]
      [] c.op = "cp"    -> [m EXCEPT ![c.s] = c.d]
      [] c.op = "clear" -> Unmapped(m)
      [] OTHER          -> m              \* gc, sync

(* Does the call write a page of its own?  Trimming what isn't mapped       *)
(* doesn't, and neither does trimming the last sector.                      *)
Writes(m, c) ==
    CASE c.op \in {"w", "cp"} -> TRUE
      [] c.op = "t"  -> m[c.s] # None /\ ~IsEmpty(Post(m, c))
      [] c.op = "cs" -> m[c.s2] # None \/ (m[c.s] # None /\ ~IsEmpty(Post(m, c)))
      [] OTHER       -> FALSE

(* Would the call add a sector to the map? *)
Adds(m, c) ==
    \/ c.op \in {"w", "cp"} /\ m[c.s] = None
    \/ c.op = "cs" /\ m[c.s2] # None /\ m[c.s] = None

(* Where power loss during call c may take us: one of the restart points,   *)
(* or the outcome of the call.                                              *)
SurvivorsOf(c) ==
    {pts[i].st : i \in DOMAIN pts} \cup
    (IF c = Idle THEN {} ELSE {Post(cur, c)})

Survivors == SurvivorsOf(pend)

Prune(p, n, w) ==
    SelectSeq(SubSeq(p, 1, Len(p) - 1), LAMBDA q : q.n >= n - w)
        \o <<p[Len(p)]>>

(* State after call c returns; `clean' tells whether that is a              *)
(* synchronization point.                                                   *)
Finish(c, ok, clean) ==
    LET m == IF ok THEN Post(cur, c) ELSE cur
        n == IF ok /\ Writes(cur, c) THEN wr + 1 ELSE wr
        p == IF clean THEN <<[st |-> m, n |-> n]>>
             ELSE IF m = cur THEN [pts EXCEPT ![Len(pts)].n = n]
             ELSE Append(pts, [st |-> m, n |-> n])
    IN  /\ cur' = m
        /\ wr' = n
        /\ pts' = Prune(p, n, win)
        /\ pend' = Idle
        /\ UNCHANGED win

(****************************************************************************)
(* Actions                                                                  *)

Start(m, w) ==
    /\ cur' = m
    /\ pts' = <<[st |-> m, n |-> 0]>>
    /\ wr' = 0
    /\ win' = w
    /\ pend' = Idle

Call(c) ==
    /\ pend = Idle
    /\ c.op \in Ops
    /\ pend' = c
    /\ UNCHANGED <<cur, pts, wr, win>>

(* A successful sync is a synchronization point; others come by themselves. *)
Return(clean) ==
    /\ pend # Idle
    /\ pend.op = "sync" => clean
    /\ Finish(pend, TRUE, clean)

(* A failed call changes nothing. *)
Fail ==
    /\ pend # Idle
    /\ Finish(pend, FALSE, FALSE)

(* Power fails, and the map is resumed. *)
PowerLossIn(c, m) ==
    /\ m \in SurvivorsOf(c)
    /\ cur' = m
    /\ pts' = <<[st |-> m, n |-> wr]>>
    /\ pend' = Idle
    /\ UNCHANGED <<wr, win>>

PowerLoss(m) == PowerLossIn(pend, m)

(****************************************************************************)
(* Properties of the abstract map                                           *)

TypeOK ==
    /\ Len(pts) > 0
    /\ pts[Len(pts)].st = cur
    /\ \A i \in DOMAIN pts : DOMAIN pts[i].st = DOMAIN cur
    /\ pend.op \in Ops \cup {"idle"}

(* Only the last `win' updates are at risk. *)
Interval ==
    \A i \in DOMAIN pts : i < Len(pts) => pts[i].n >= wr - win
=============================================================================
