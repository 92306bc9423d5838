------------------------------ MODULE FmtTrace ------------------------------
(* Reads the flash contents that the real code produced by FmtSpec, after   *)
(* every call which left everything checkpointed, and after every restart,  *)
(* and compares with what the real code says is in the map.                 *)
EXTENDS FmtSpec, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,
    c,      \* line of the current "cfg"
    img,    \* page -> line which programmed it, 0 if erased, -1 if half so
    cp,     \* the latest checkpoint page, or NoPage
    pass    \* how many times we went round the chip

vars == <<l, c, img, cp, pass>>

Cfg == Trace[c]
Ppb == 2^Cfg.lb
Ppc == Cfg.u + 1
Total == Cfg.nb * Ppb
BlockOf(p) == p \div Ppb

Init == l = 1 /\ c = 1 /\ img = <<>> /\ cp = NoPage /\ pass = 0

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TCfg ==
    /\ Is("cfg")
    /\ c' = l
    /\ img' = [p \in 0 .. Trace[l].nb * 2^Trace[l].lb - 1 |-> 0]
    /\ cp' = NoPage
    /\ pass' = 0

(* r = 0: done; power was lost: 2 nothing happened, 5 done all the same, 3   *)
(* and 4 something in between, -1 in img *)
Done(r) == r \in {0, 5}

TErase ==
    /\ Is("n") /\ Trace[l].o = "E"
    /\ Trace[l].r \in {0, 2, 3, 4, 5}
    /\ img' = IF Trace[l].r = 2 THEN img
              ELSE [p \in DOMAIN img |->
                        IF BlockOf(p) # Trace[l].a THEN img[p]
                        ELSE IF Done(Trace[l].r) THEN 0 ELSE -1]
    /\ UNCHANGED <<c, cp, pass>>

IsCheckpoint(p) == p % Ppc = Cfg.u

BadBefore(b) == Cardinality({i \in 0 .. b - 1 : Cfg.bad[i + 1] # 0})

(* A checkpoint was written at p. *)
HeaderOK(e, p, np) ==
    /\ SubSeq(e.h, 1, 3) = <<68, 104, 97>>      \* "Dha"
    /\ e.h[4] = np % 256
    /\ e.f[1] \in 0 .. Total - 1
    /\ ~IsCheckpoint(e.f[1])
    /\ e.f[2] = BadBefore(BlockOf(p))
    /\ e.f[3] = IF np = 0 THEN Cfg.nb \div 64 ELSE BadBefore(Cfg.nb)
    /\ e.f[4] >= 0

TProgram ==
    /\ Is("n") /\ Trace[l].o = "P"
    /\ LET p == Trace[l].a
       IN  IF Trace[l].r = 2 THEN UNCHANGED <<img, cp, pass>>
           ELSE IF Trace[l].r \in {3, 4}
                THEN img' = [img EXCEPT ![p] = -1] /\ UNCHANGED <<cp, pass>>
           ELSE /\ Done(Trace[l].r)
                /\ img' = [img EXCEPT ![p] = l]
                /\ IF IsCheckpoint(p)
                   THEN LET np == IF p < cp THEN pass + 1 ELSE pass
                        IN  /\ HeaderOK(Trace[l], p, np)
                            /\ cp' = p
                            /\ pass' = np
                   ELSE UNCHANGED <<cp, pass>>
    /\ UNCHANGED c

(****************************************************************************)
(* The map, read off the flash *)

Header == Trace[img[cp]]

Rec(p) ==
    LET e == Trace[img[(p \div Ppc) * Ppc + Cfg.u]]
        m == e.meta[(p % Ppc) + 1]
    IN  [id |-> <<m[1], m[2]>>, alt |-> SubSeq(m, 3, 34)]

Dist(a, b) == (b + Total - a) % Total

(* Pages of the map lie between the tail and the latest checkpoint. *)
Live(p) ==
    /\ p \in 0 .. Total - 1
    /\ ~IsCheckpoint(p)
    /\ Dist(Header.f[1], p) < Dist(Header.f[1], cp)
    /\ img[(p \div Ppc) * Ppc + Cfg.u] > 0

Find(s) == Follow(Rec, Live, s, cp - 1, 0)

Contents ==
    [i \in 1 .. Cfg.k |->
        IF cp = NoPage THEN -1
        ELSE LET p == Find(Cfg.sec[i])
             IN  IF p < 0 THEN p
                 ELSE IF img[p] <= 0 THEN -7
                 ELSE Trace[img[p]].id]

Mapped == Cardinality({i \in 1 .. Cfg.k : Contents[i] # -1})

Matches(e) ==
    LET v == Contents
        m == Cardinality({i \in 1 .. Cfg.k : v[i] # -1})
    IN  /\ e.v = v
        /\ e.vn = m
        /\ cp # NoPage => Header.f[4] = m

TReturn ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"op", "ret"} /\ l' = l + 1
    /\ Trace[l].cl = 1 => Matches(Trace[l])
    /\ UNCHANGED <<c, img, cp, pass>>

TUp ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"init", "up"} /\ l' = l + 1
    /\ Trace[l].r = IF cp = NoPage THEN -1 ELSE 0
    /\ Matches(Trace[l])
    /\ UNCHANGED <<c, img, cp, pass>>

TSkip ==
    /\ l <= Len(Trace) /\ Trace[l].e \in {"call", "crash", "end"}
    /\ l' = l + 1
    /\ UNCHANGED <<c, img, cp, pass>>

Next == TCfg \/ TErase \/ TProgram \/ TReturn \/ TUp \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
