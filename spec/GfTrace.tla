------------------------------ MODULE GfTrace -------------------------------
(* Checks recordings of the real arithmetic in GF(2^13) (harness/gfdrv.c),  *)
(* with and without tables, and of what tools/gftool prints, against its    *)
(* definition: polynomials over GF(2), modulo x^13 + x^4 + x^3 + x + 1.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

G2 == INSTANCE Gf2

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,
    x,      \* power of alpha
    y,      \* power of 1 / alpha
    g,      \* field polynomial
    seen    \* polynomials found

vars == <<l, x, y, g, seen>>

Field == {13, 4, 3, 1, 0}

Order == 8191

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Times(a, b) == G2!PolyMod(G2!PolyMul(a, b), Field)

Over_x(p) == G2!Shift(IF 0 \in p THEN G2!(+)(p, Field) ELSE p, -1)

Init == l = 1 /\ x = {0} /\ y = {0} /\ g = Field /\ seen = {}

TMul ==
    /\ Is("mul")
    /\ LET e == Trace[l]
       IN  G2!Bits(e.r) = Times(G2!Bits(e.a), G2!Bits(e.b))
    /\ UNCHANGED <<x, y, g, seen>>

TDiv ==
    /\ Is("div")
    /\ LET e == Trace[l]
       IN  /\ e.r > 0 /\ e.r <= Order
           /\ Times(G2!Bits(e.r), G2!Bits(e.b)) = G2!Bits(e.a)
    /\ UNCHANGED <<x, y, g, seen>>

(* The i'th power of alpha and of its inverse, their product, and x / x *)
TPow ==
    /\ Is("pow")
    /\ LET e == Trace[l]
       IN  /\ x' = IF e.i = 0 THEN {0} ELSE G2!Times_x(x, Field)
           /\ y' = IF e.i = 0 THEN {0} ELSE Over_x(y)
           /\ e.x = G2!Num(x') /\ e.y = G2!Num(y')
           /\ e.m = 1 /\ e.d = 1
           /\ e.i \in 1 .. Order - 1 => x' # {0}
    /\ UNCHANGED <<g, seen>>

(* The tables: alpha^i, and its logarithm *)
TTab ==
    /\ Is("tab")
    /\ LET e == Trace[l]
       IN  /\ x' = IF e.i = 0 THEN {0} ELSE G2!Times_x(x, Field)
           /\ e.x = G2!Num(x')
           /\ e.l % Order = e.i % Order
           /\ e.l \in 0 .. Order
    /\ UNCHANGED <<y, g, seen>>

(* gftool <g> exp, log: fields of any size.  The logarithm of 0 is whatever.*)
TField ==
    /\ Is("field")
    /\ g' = {Trace[l].g[i] : i \in DOMAIN Trace[l].g}
    /\ UNCHANGED <<x, y, seen>>

TExp ==
    /\ Is("exp")
    /\ LET e == Trace[l]
       IN  /\ x' = IF e.i = 0 THEN {0} ELSE G2!Times_x(x, g)
           /\ e.x = G2!Num(x')
           /\ e.n = 2^G2!Deg(g)
           /\ e.l % (e.n - 1) = e.i % (e.n - 1)
           /\ e.l \in 0 .. e.n - 1
    /\ UNCHANGED <<y, g, seen>>

(* gftool <g> bch n: the product p of the minimal polynomials of the        *)
(* first n powers of alpha.  The factors are printed, too.                  *)
RECURSIVE Product(_, _)
Product(s, i) ==
    IF i > Len(s) THEN {0}
    \* (the union makes TLC evaluate the rest just once)
    ELSE UNION {G2!PolyMul(s[i], q) : q \in {Product(s, i + 1)}}

(* The exponents of its roots: those of the first n powers, and with any     *)
(* power its square. *)
Roots(n, d) == {(i * 2^k) % (2^d - 1) : i \in 1 .. n, k \in 0 .. d - 1}

ToSet(s) == {s[i] : i \in DOMAIN s}

Irreducible(p) ==
    \A n \in 2 .. 2^(G2!Deg(p) \div 2 + 1) - 1 : G2!PolyMod(p, G2!Bits(n)) # {}

RightBch(e) ==
    LET p == ToSet(e.p)
        f == [i \in DOMAIN e.f |-> ToSet(e.f[i])]
        o == 2^G2!Deg(g) - 1
    IN  /\ e.n < o
        /\ G2!Deg(p) = Cardinality(Roots(e.n, G2!Deg(g)))
        /\ \A i \in 1 .. e.n : G2!IsRoot(p, i, g)
        /\ p = Product(f, 1)
        /\ \A i, j \in DOMAIN f : f[i] = f[j] => i = j
        /\ \A i \in DOMAIN f : Irreducible(f[i])
        /\ \A i \in DOMAIN f : \E k \in 1 .. e.n : G2!IsRoot(f[i], k, g)

TBch ==
    /\ Is("genpoly")
    /\ RightBch(Trace[l]) = TRUE     \* (an expression: TLC is faster that way)
    /\ UNCHANGED <<x, y, g, seen>>

(* It's refused if its degree, which is the number of roots, is more than    *)
(* there's room for, or if n roots are all there are.                        *)
TRefused ==
    /\ Is("refused")
    /\ LET n == Trace[l].n
           o == 2^G2!Deg(g) - 1
       IN  n >= o \/ Cardinality(Roots(n, G2!Deg(g))) > 63
    /\ UNCHANGED <<x, y, g, seen>>

(* gftool search d: all primitive polynomials of degree d *)
PrimeFactors(n) ==
    {p \in 2 .. n : n % p = 0 /\ \A q \in 2 .. p - 1 : p % q # 0}

Primitive(p, d) ==
    LET o == 2^d - 1
    IN  /\ G2!Deg(p) = d
        /\ 0 \in p
        /\ G2!XPow(o, p) = {0}
        /\ \A q \in PrimeFactors(o) : G2!XPow(o \div q, p) # {0}

TFound ==
    /\ Is("found")
    /\ LET e == Trace[l]
           p == ToSet(e.p)
       IN  /\ Primitive(p, e.d)
           /\ ToSet(e.r) = {e.d - k : k \in p}      \* the reciprocal
           /\ p \notin seen
           /\ seen' = seen \cup {p}
    /\ UNCHANGED <<x, y, g>>

(* ... and none is missing. *)
TAll ==
    /\ Is("all")
    /\ LET d == Trace[l].d
       IN  seen = {p \in {G2!Bits(n) : n \in 2^d .. 2^(d + 1) - 1} :
                       Primitive(p, d)}
    /\ seen' = {}
    /\ UNCHANGED <<x, y, g>>

(* Arguments which make no sense: it says so, and gives no answer. *)
TWrong == Is("wrong") /\ Trace[l].r = "refused" /\ UNCHANGED <<x, y, g, seen>>

TSkip == Is("end") /\ UNCHANGED <<x, y, g, seen>>

Next ==
    TMul \/ TDiv \/ TPow \/ TTab \/ TField \/ TExp \/ TBch \/ TRefused \/ TFound \/ TAll
        \/ TWrong \/ TSkip

Spec == Init /\ [][Next]_vars

Report == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
